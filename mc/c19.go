package main

import (
	"bytes"
	"fmt"
	"sort"
	"sync/atomic"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C19", "model_checking", runC19)
}

// kinds of reading which need a key, and which do not
const (
	readsKey    = "npt"
	readsNoKey  = "rcdiq"
	readsAllStr = readsKey + readsNoKey
)

// readKind performs one kind of reading. In a state with uncommitted changes some kinds have no defined result
// and may panic (only there). No kind writes to the stores
//
//	n nodes on the way to the key and around it   p proof of the key   t text of the nodes and the proof
//	r root commitment   c reconcile with a store   d dump of the cache   i descriptions, settings
//	q new readers and tries over the stores, with everything read through them
func (s *SUT) readKind(kind byte, key string) {
	ft, fv := s.ts.frozen, s.vs.frozen
	s.ts.frozen, s.vs.frozen = true, true
	defer func() {
		s.ts.frozen, s.vs.frozen = ft, fv
		if r := recover(); r != nil {
			if _, ok := r.(failure); ok || !s.dirty || kind == 'n' {
				panic(r)
			}
		}
	}()
	k := []byte(key)
	uk := trie.UnpackBytes(k, s.cfg.Arity)
	switch kind {
	case 'n':
		for i := 0; i <= len(uk); i++ {
			if i <= 40 || i >= len(uk)-8 {
				s.tr.GetNode(uk[:i:i])
			}
		}
		s.tr.GetNode(append(append([]byte{}, uk...), 0))
		s.tr.GetNode(append(append([]byte{}, uk...), 1, 1, 0, 1))
	case 'p':
		trie.GetProofGeneric(s.tr, uk)
		switch m := s.m.(type) {
		case *trie_blake2b.CommitmentModel:
			m.Proof(k, s.tr)
		case *trie_kzg_bn256.CommitmentModel:
			m.ProofOfInclusion(k, s.tr)
		}
	case 't':
		p := trie.GetProofGeneric(s.tr, uk)
		_ = p.String()
		for _, x := range p.Path {
			if n, ok := s.tr.GetNode(x); ok {
				_ = nodeStr(n)
			}
		}
	case 'r':
		trie.RootCommitment(s.tr)
	case 'c':
		st := NewStore()
		st.m = cp(s.content)
		st.m[key+"\x01"] = "x"
		s.tr.Reconcile(st)
	case 'd':
		_ = s.tr.DangerouslyDumpCacheToString()
	case 'i':
		_ = s.tr.Info()
		_ = s.tr.Model().Description() + s.tr.Model().ShortName() + s.tr.PathArity().String()
		if r := rootOf(s.reader()); r != nil {
			if _, err := s.tr.VectorCommitmentFromBytes(r); err != nil {
				failf("commitment does not decode: %v", err)
			}
		}
	case 'q':
		r := s.reader()
		t := newTrie(s.cfg, s.m, s.ts, s.vs)
		for k := range s.persisted {
			for _, ns := range []trie.NodeStore{r, t} {
				_ = proofStr(ns, k)
				_ = ns.Info()
			}
		}
	default:
		panic("harness error: wrong kind")
	}
}

func readOps(keys []string, kinds string) []Op {
	var r []Op
	for i := range kinds {
		if i < len(kinds) && bytes.IndexByte([]byte(readsKey), kinds[i]) >= 0 {
			for _, k := range keys {
				r = append(r, Op{'r', k, kinds[i : i+1]})
			}
		} else {
			r = append(r, Op{'r', "", kinds[i : i+1]})
		}
	}
	return r
}

// dirtyView is what can be seen of a trie with uncommitted changes: its nodes
func dirtyView(s *SUT, keys []string) string {
	var b bytes.Buffer
	t := s.tr.Clone()
	pos := positionsOf(expectFor(s.cfg, s.content), probesFor(keys), s.cfg)
	sort.Strings(pos)
	for _, p := range pos {
		if n, ok := t.GetNode([]byte(p)); ok {
			fmt.Fprintf(&b, "%x=%s\n", p, nodeStr(n))
		}
	}
	for _, k := range probesFor(keys) {
		p := trie.GetProofGeneric(t, trie.UnpackBytes([]byte(k), s.cfg.Arity))
		fmt.Fprintf(&b, "%x:%d %x\n", k, p.Ending, p.Path)
	}
	return b.String()
}

// settled compares everything with the fresh trie, and persists into a copy of the store, not touching the own one
func settled(s *SUT, keys []string) {
	diffViews("content "+mapStr(s.content), sutView(s.tr, s.cfg, keys, s.content), expectedView(s.cfg, s.content, keys))
	f := s.ts.frozen
	s.ts.frozen = true // persisting writes only to the store given
	s.persistCopy()
	s.ts.frozen = f
}

// aspectIdempotent: in a committed state commit and persist may be repeated
func aspectIdempotent(keys []string, mk func(h []Op) *SUT) func(s *SUT, h []Op) {
	return func(s *SUT, h []Op) {
		if s.dirty {
			// committing twice is the same as once, whatever happened before
			s.commit()
		}
		r := rootOf(s.tr)
		s.ts.frozen, s.vs.frozen = true, true
		for i := 0; i < 3; i++ {
			s.commit()
			if !bytes.Equal(rootOf(s.tr), r) {
				failf("commit number %d without changes: root %s, before it was %s", i+2, hx(rootOf(s.tr)), hx(r))
			}
			settled(s, keys)
		}
		s.ts.frozen, s.vs.frozen = false, false
		s.persist()
		eqStore(s, s.content, "persisted")
		st := cp(s.ts.m)
		for i := 0; i < 3; i++ {
			if i == 2 {
				s.commit()
			}
			s.persist()
			if !eqMap(st, s.ts.m) {
				failf("repeated persist changed the store of the content %s from %s to %s", mapStr(s.content), mapStr(st), mapStr(s.ts.m))
			}
			if !bytes.Equal(rootOf(s.tr), r) {
				failf("repeated persist: root %s, before it was %s", hx(rootOf(s.tr)), hx(r))
			}
		}
		settled(s, keys)
		s.tr.ClearCache()
		s.persist()
		if !eqMap(st, s.ts.m) {
			failf("persist after clearing the cache changed the store of the content %s from %s to %s", mapStr(s.content), mapStr(st), mapStr(s.ts.m))
		}
		settled(s, keys)
	}
}

// aspectReads: in the state every read leaves everything visible as it was, and the trie behaves the same later on
func aspectReads(keys []string, cfg Cfg, kinds string, next []Op) func(s *SUT, h []Op) {
	replay := func(h []Op) *SUT {
		x := NewSUT(cfg)
		for _, o := range h {
			x.Apply(o)
		}
		return x
	}
	reads := readOps(keys, kinds)
	return func(s *SUT, h []Op) {
		base := dirtyView(s, keys)
		tm, vm := cp(s.ts.m), cp(s.vs.m)
		x := replay(h)
		for _, r := range reads {
			x.Apply(r) // all reads one after another
			if v := dirtyView(x, keys); v != base {
				failf("%v: nodes and paths are\n%s\nwithout reading they are\n%s", r, v, base)
			}
		}
		if !eqMap(tm, x.ts.m) || !eqMap(vm, x.vs.m) {
			failf("reading changed a store")
		}
		// later operations, with all reads done and with each single one done
		for i := -1; i < len(reads); i++ {
			for _, o := range next {
				y := replay(h)
				if i >= 0 {
					y.Apply(reads[i])
				} else {
					for _, r := range reads {
						y.Apply(r)
					}
				}
				y.Apply(o)
				if i < 0 {
					for _, r := range reads {
						y.Apply(r)
					}
				}
				y.commit()
				what := "all reads"
				if i >= 0 {
					what = reads[i].String()
				}
				e := expectFor(cfg, y.content)
				if r := rootOf(y.tr); !bytes.Equal(r, e.root) {
					failf("%s, then %v: content %s has the root %s, expected %s", what, o, mapStr(y.content), hx(r), hx(e.root))
				}
				y.ts.frozen = true
				y.persistCopy()
			}
		}
	}
}

func runC19(c *Ctx) {
	sym := Cfg{Kind: "sym", Arity: a256}
	sweep := func(s *SUT, h []Op) {
		ks := keysOfHist(h)
		if len(ks) > 8 {
			ks = append(append([]string{}, ks[:4]...), ks[len(ks)-4:]...)
		}
		before := dirtyView(s, ks)
		for _, r := range readOps(ks, readsAllStr) {
			s.Apply(r)
		}
		if v := dirtyView(s, ks); v != before {
			failf("reading changed the trie: nodes and paths are\n%.3000s\nbefore\n%.3000s", v, before)
		}
		x := s.ts.writes
		s.commit()
		settled(s, ks)
		if s.ts.writes != x {
			failf("write to the own store")
		}
	}
	// many reads, commits and persists without a change in between
	still := func(s *SUT, h []Op) {
		keep := s.tr.Clone()
		sweep(s, h)
		s.tr = keep
	}
	c.Pump([]Cfg{b2b(a256, h160), b2b(a16, h256).opt().thr(1)}, "ra=n rab=p ra=t r=r r=d r=q C p", 2, []int{128, 255, 256}[c.pick(2, 0):], still)
	long := [][]Op{parseOps("ra=n"), parseOps("rab=p"), parseOps("r=r"), parseOps("C"), parseOps("p"), parseOps("ra=n C p")}
	c.pumpWords([]Cfg{b2b(a256, h160)}, long, fmt.Sprintf("%d words", len(long)), []int{65535, 65536, 65537}[c.pick(2, 0):], still)
	c.Large([]Cfg{b2b(a256, h160)}, []int{300, 1100, c.pick(3000, 65600)}, still)
	c.Deep([]Cfg{b2b(a256, h160)}, []int{70, 140, 270, c.pick(400, 1100)}, still)
	c.Deep([]Cfg{b2b(a2, h160)}, []int{70, c.pick(140, 400)}, still)
	// complete closures with the reads as operations; everything is compared in every committed state
	closure := func(cfgs []Cfg, unis map[string][]string, vals []string, extra, kinds string, max int64) {
		for _, cfg := range cfgs {
			for _, n := range sortedNames(unis) {
				if c.Done() {
					return
				}
				cfg, keys := cfg, unis[n]
				idem := aspectIdempotent(keys, nil)
				c.BFS(Machine{Name: fmt.Sprintf("reads closure %s %s %s/%s", n, cfg, extra, kinds), Bound: "all reachable states (complete closure)",
					Ops: append(opsFor(keys, vals, extra), readOps(keys, kinds)...), New: func() *SUT { return NewSUT(cfg) },
					Check: func(s *SUT, h []Op) {
						if !s.dirty {
							aspectRoot(s, h)
							s.persistCopy()
						}
					},
					CheckNew: idem, MaxStates: max})
			}
		}
	}
	closure([]Cfg{b2b(a256, h160)}, pickUni("chain", "fork", "split"), []string{"1"}, "CFXR", readsAllStr, 0)
	closure([]Cfg{b2b(a16, h160).opt().thr(2), b2b(a2, h256)}, pickUni("nib2"), []string{"1"}, "CFX", readsAllStr, 0)
	closure([]Cfg{sym}, pickUni("fork", "zeros"), []string{"1"}, "CFX", readsAllStr, 0)
	closure([]Cfg{cfgKZG}, map[string][]string{"2keys": {"ab", "ac"}}, []string{"1"}, "CFX", "npr", int64(c.pick(60, 4000)))
	// in every state every read, followed by every operation
	every := func(cfgs []Cfg, unis map[string][]string, vals []string, extra string, max int64) {
		for _, cfg := range cfgs {
			for _, n := range sortedNames(unis) {
				if c.Done() {
					return
				}
				cfg, keys := cfg, unis[n]
				next := opsFor(keys, vals, extra)
				var en []Op
				for _, o := range next {
					if o.T != 'F' && o.T != 'X' && o.T != 'R' { // these drop the cache
						en = append(en, o)
					}
				}
				c.BFS(Machine{Name: fmt.Sprintf("every read in every state %s %s %s", n, cfg, extra), Bound: "all reachable states (complete closure) x all reads x all operations",
					Ops: next, New: func() *SUT { return NewSUT(cfg) }, CheckNew: aspectReads(keys, cfg, readsAllStr, en), MaxStates: max})
			}
		}
	}
	every([]Cfg{b2b(a256, h160)}, pickUni("chain", "fork"), []string{"1"}, "CFR", 0)
	every([]Cfg{b2b(a16, h256).thr(1)}, pickUni("nib2"), []string{"12"}, "CF", 0)
	every([]Cfg{sym}, pickUni("split2"), []string{"12"}, "CF", 0)
	every([]Cfg{b2b(a2, h160).opt()}, pickUni("fork"), []string{"1"}, "CFK", int64(c.pick(1000, 0)))
	every([]Cfg{cfgKZG}, map[string][]string{"2keys": {"ab", "ac"}}, []string{"1"}, "CF", int64(c.pick(14, 400)))
	for _, un := range sortedNames(universes6) {
		for _, cfg := range []Cfg{sym, b2b(a16, h160), b2b(a256, h256).thr(20), b2b(a2, h160).opt()} {
			c.readPoints(cfg, un, universes6[un], c.pick(1, 2))
		}
	}
	c.AllSweeps([]Cfg{b2b(a256, h160), b2b(a16, h256).opt().thr(25)}, sweep, "Skvfd")
	c.Bulk([]Cfg{b2b(a256, h256), b2b(a16, h160)}, sweep)
	if !c.quick() {
		closure([]Cfg{b2b(a256, h256), b2b(a16, h256), b2b(a2, h160), sym}, universes3, []string{"1"}, "CFXR", readsAllStr, 0)
		closure([]Cfg{b2b(a256, h160)}, pickUni("fork", "split"), []string{"1", "2"}, "CFX", "npr", 0)
		every([]Cfg{b2b(a256, h256), b2b(a16, h160), sym}, universes3, []string{"1"}, "CFR", 0)
		c.AllSweeps([]Cfg{b2b(a256, h256), b2b(a16, h160).thr(20), b2b(a2, h256).opt()}, sweep, "Skvfd")
	}
}

// readPoints: from every content (persisted or in the cache), all sequences of mutations with and without commits, and
// reads inserted at every subset of the points
func (c *Ctx) readPoints(cfg Cfg, name string, keys []string, length int) {
	if c.Done() {
		return
	}
	s, end := c.Begin(fmt.Sprintf("read points %s %s length=%d", name, cfg, length),
		fmt.Sprintf("all subsets of %d keys x all sequences of %d mutations x all subsets of the points where everything is read", len(keys), length))
	defer end()
	ops := opsFor(keys, []string{"1"}, "C")
	s.MaxDepth = length
	n := 1
	for i := 0; i < length; i++ {
		n *= len(ops)
	}
	reads := readOps(keys, readsAllStr)
	c.Par(1<<uint(len(keys)), func(sub int) {
		for q := 0; q < 2*n; q++ {
			for pts := 0; pts < 1<<uint(length+2); pts++ {
				if c.Done() {
					return
				}
				var pre, h []Op
				for i, k := range keys {
					if sub&(1<<uint(i)) != 0 {
						pre = append(pre, Op{'U', k, "0"})
					}
				}
				pre = append(pre, Op{T: 'P'})
				if q%2 == 1 {
					pre = append(pre, Op{T: 'X'})
				}
				h = append(h, pre...)
				bit := func(i int) {
					if pts&(1<<uint(i)) != 0 {
						h = append(h, Op{T: '*'})
					}
				}
				bit(0)
				for x, i := q/2, 0; i < length; i++ {
					h = append(h, ops[x%len(ops)])
					x /= len(ops)
					bit(i + 1)
				}
				h = append(h, Op{T: 'C'})
				bit(length + 1)
				if !c.Case(s, histStr(h), func() {
					x := NewSUT(cfg)
					for _, o := range h {
						if o.T == '*' {
							for _, r := range reads {
								x.Apply(r)
							}
							continue
						}
						x.Apply(o)
					}
					aspectRoot(x, h)
					x.ts.frozen = true
					x.persistCopy()
					x.ts.frozen = false
					x.persist()
					eqStore(x, x.content, "persisted")
				}) {
					return
				}
				atomic.AddInt64(&s.Transitions, int64(len(h)))
			}
		}
	})
}
