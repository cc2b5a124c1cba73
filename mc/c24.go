package main

import (
	"bytes"
	"fmt"
	"sync/atomic"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C24", "model_checking", runC24)
}

// effective is the content without the option which is committed to by definition: values equal to keys are replaced
// by unpacked keys
func effective(cfg Cfg, content map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range content {
		if k == v {
			v = unpackRef(k, cfg.Arity)
		}
		r[k] = v
	}
	return r
}

func hasPair(content map[string]string, cfg Cfg) bool {
	for k, v := range content {
		if v == k || v == unpackRef(k, cfg.Arity) {
			return true
		}
	}
	return false
}

// aspectKeyOpt: in a committed state with the option on
func aspectKeyOpt(keys, vals []string) Aspect {
	probes := probesFor(keys)
	return func(s *SUT, h []Op) {
		if s.dirty {
			return
		}
		off := s.cfg
		off.KeyOpt = false
		eff := effective(s.cfg, s.content)
		e := expectFor(off, eff)
		// the root by the definition, and of a fresh trie with the option on
		if r := rootOf(s.tr); !bytes.Equal(r, e.root) || !bytes.Equal(r, expectFor(s.cfg, s.content).root) {
			failf("content %s: root is %s, by the definition %s, of a fresh trie %s", mapStr(s.content), hx(r), hx(e.root), hx(expectFor(s.cfg, s.content).root))
		}
		exp := expectedView(off, eff, keys)
		pos := positionsOf(e, keys, off)
		diffViews("content "+mapStr(s.content), viewOf(s.tr.Clone(), pos, probes, true), exp)
		// persisted elsewhere, reopened without the value store (if there is no threshold) in both ways
		st := s.ts.Copy()
		s.tr.PersistMutations(st)
		var vs trie.KVReader
		if s.cfg.Thr != 0 {
			vs = &Store{m: cp(s.content), frozen: true}
		}
		st.frozen = true
		rd := trie.NewTrieReader(s.m, st, vs)
		diffViews("reader, content "+mapStr(s.content), viewOf(rd, pos, probes, true), exp)
		tr := trie.New(s.m, st, vs, true)
		diffViews("reopened, content "+mapStr(s.content), viewOf(tr, pos, probes, true), exp)
		for _, k := range probes {
			a := checkProof(rd, s.cfg, s.content, e.root, k, vals)
			if b := checkProof(tr, s.cfg, s.content, e.root, k, nil); a != b {
				failf("content %s key %s: proof from the reader: %s, from the trie: %s", mapStr(s.content), q(k), a, b)
			}
		}
		if !hasPair(s.content, s.cfg) && !eqMap(st.m, e.store) {
			failf("content %s: the store is %s, with the option off %s", mapStr(s.content), mapStr(st.m), mapStr(e.store))
		}
	}
}

func runC24(c *Ctx) {
	ks := []string{"a", "ab", "abc", "c"}
	c.Pump([]Cfg{b2b(a256, h160).opt(), b2b(a16, h256).opt().thr(1)}, "Ua=a Uab=ab Uab=2 Da Dab C p R L ga", c.pick(1, 2), []int{127, 128, 254, 255, 256, 257}, aspectKeyOpt(ks, nil))
	symOpt := Cfg{Kind: "sym", Arity: a16, KeyOpt: true}
	kzgOpt := cfgKZG.opt()
	// complete closures
	for _, x := range []struct {
		cfg  Cfg
		un   string
		keys []string
		ex   string
		max  int
	}{
		{b2b(a256, h160).opt(), "fork", nil, "CFRKI", 0},
		{b2b(a16, h256).opt(), "chain", nil, "CFRK", 0},
		{b2b(a2, h160).opt(), "nib2", nil, "CFRK", 0},
		{b2b(a256, h256).opt().thr(1), "forkE", nil, "CFRK", 0},
		{b2b(a16, h160).opt().thr(4), "zeros", nil, "CFK", 0},
		{symOpt, "split", nil, "CFRK", 0},
		{kzgOpt, "", []string{"ab", "ac"}, "CFXK", c.pick(40, 3000)},
		{b2b(a2, h256).opt().thr(9), "", []string{"a", "ab"}, "CFXRKIL", 0},
		{b2b(a256, h160).opt().thr(19), "", []string{pat(19, 1), pat(20, 1), pat(21, 1)}, "CFK", 0},
		{b2b(a16, h160).opt().thr(10), "", []string{pat(10, 1), pat(11, 1)}, "CFXRK", 0},
	} {
		name, keys := x.un, x.keys
		if keys == nil {
			keys = universes3[x.un]
		} else {
			name = fmt.Sprintf("%d keys of %d bytes", len(keys), len(keys[0]))
		}
		max := int64(x.max)
		if max == 0 && c.quick() {
			max = 12000
		}
		c.Closures([]Cfg{x.cfg}, map[string][]string{name: keys}, []string{"1"}, x.ex, nil, aspectKeyOpt(keys, []string{"1", "x"}), max, 0)
	}
	// InsertKeyCommitment is the same as Update(key, key), also with the option off
	for _, cfg := range []Cfg{b2b(a256, h160), b2b(a16, h256), b2b(a2, h160), b2b(a16, h160).opt(), b2b(a2, h256).opt()} {
		c.Closures([]Cfg{cfg}, pickUni("nib2"), []string{"1"}, "CFI", aspectRoot, nil, int64(c.pick(4000, 0)), 0)
		c.insertKey(cfg)
	}
	// all assignments of no value, an ordinary one, the key, another key
	for _, un := range sortedNames(universes6) {
		for i, cfg := range []Cfg{b2b(a256, h160).opt(), b2b(a16, h256).opt().thr(3), b2b(a2, h160).opt(), b2b(a16, h160).opt(), b2b(a256, h256).opt().thr(2)} {
			if c.quick() && (i+len(un))%3 == 0 {
				continue
			}
			c.keyAssignments(cfg, un, universes6[un])
		}
	}
	// keys of all lengths with the value equal to the key, in the root, in inner nodes, in leaves
	var lens []int
	for _, l := range boundaryLens {
		if l <= 300 {
			lens = append(lens, l)
		}
	}
	if !c.quick() {
		lens = append(rng(1, 700, 1), 1000, 4096)
	}
	var cfgs []Cfg
	for _, b := range allB2B() {
		cfgs = append(cfgs, b.opt(), b.opt().thr(21), b.opt().thr(40))
	}
	for i, cfg := range cfgs {
		if c.quick() && i%3 != i/3%3 {
			continue
		}
		cfg := cfg
		s, end := c.Begin("key lengths "+cfg.String(), fmt.Sprintf("%d lengths of the key x 4 shapes of the trie x 3 histories", len(lens)))
		n, uni := sweepKeyLens(lens)
		c.Par(n, func(i int) {
			keys, _, id := uni(i)
			asp := aspectKeyOpt(keys, nil)
			c.Case(s, id, func() {
				for m := 0; m < 3; m++ {
					for _, h := range scripts(keys, func(j int) string {
						if (j+m)%3 == 2 {
							return "v"
						}
						return keys[j]
					}) {
						x := NewSUT(cfg)
						for j, o := range h {
							x.Apply(o)
							atomic.AddInt64(&s.Transitions, 1)
							if c.quick() && j%2 == 1 && j != len(h)-1 {
								continue
							}
							asp(x, h[:j+1])
						}
						break
					}
				}
			})
		})
		end()
	}
	own := func(k string) []string { return []string{k, "7"} }
	for _, b := range allB2B() {
		c.resettings([][2]Cfg{{b, b.opt()}, {b.opt(), b}}, []string{"a", "ab", "b"}, own)
	}
	c.resettings([][2]Cfg{{b2b(a256, h160).thr(2), b2b(a256, h160).thr(2).opt()}, {b2b(a256, h256).thr(1).opt(), b2b(a256, h256).thr(1)}}, []string{"a", "ab", "b"}, own)
	c.resettings([][2]Cfg{{cfgKZG, cfgKZG.opt()}, {cfgKZG.opt(), cfgKZG}}, []string{"a", "ab"}, own)
	c.keyOptKnown()
}

func (c *Ctx) keyAssignments(cfg Cfg, name string, keys []string) {
	if c.Done() {
		return
	}
	s, end := c.Begin(fmt.Sprintf("assignments %s %s", name, cfg),
		fmt.Sprintf("all assignments of no value, an ordinary value, the key or another key to %d keys, persisted, reopened or committed (in the quick run one of them) x every mutation there and back", len(keys)))
	defer end()
	total := 1
	for range keys {
		total *= 4
	}
	valOf := func(i, kind int) string {
		switch kind {
		case 1:
			return "7"
		case 2:
			return keys[i]
		case 3:
			return keys[(i+1)%len(keys)]
		}
		return ""
	}
	asp := aspectKeyOpt(keys, []string{"8"})
	step := c.pick(3, 1)
	c.Par(total, func(a int) {
		if c.Done() {
			return
		}
		var h []Op
		content := map[string]string{}
		for i, x := 0, a; i < len(keys); i++ {
			if v := valOf(i, x%4); v != "" {
				h = append(h, Op{'U', keys[i], v})
				content[keys[i]] = v
			}
			x /= 4
		}
		modes := []string{"P", "PR", "C"}
		if c.quick() {
			modes = modes[a%3 : a%3+1]
		}
		for _, mode := range modes {
			h := append([]Op{}, h...)
			for _, b := range mode {
				h = append(h, Op{T: byte(b)})
			}
			if !c.Case(s, histStr(h), func() {
				x := NewSUT(cfg)
				for _, o := range h {
					x.Apply(o)
				}
				asp(x, h)
				// every key gets every other value, and its own one back
				root := rootOf(x.tr)
				for i, k := range keys {
					if c.quick() && (i+a)%step != 0 {
						continue
					}
					for kind := 0; kind < 4; kind++ {
						v := valOf(i, kind)
						there := Op{'U', k, v}
						if v == k && i%2 == 0 && k != "" {
							there = Op{'I', k, ""}
						}
						x.Apply(there)
						x.Apply(Op{T: 'C'})
						aspectRoot(x, h)
						if mode == "PR" {
							x.Apply(Op{T: 'p'})
							x.Apply(Op{T: 'R'})
							eqStore(x, x.content, "persisted")
						}
						x.Apply(Op{'U', k, content[k]})
						x.Apply(Op{T: 'C'})
						if r := rootOf(x.tr); !bytes.Equal(r, root) {
							failf("content %s: after %v and back the root is %s, it was %s", mapStr(content), there, hx(r), hx(root))
						}
						x.persistCopy()
						atomic.AddInt64(&s.Transitions, 4)
					}
				}
			}) {
				return
			}
		}
	})
}

// insertKey compares InsertKeyCommitment with Update(key, key) for keys of all lengths
func (c *Ctx) insertKey(cfg Cfg) {
	lens := append(rng(1, 70, 1), 95, 127, 128, 129, 255, 256, 300)
	s, end := c.Begin("InsertKeyCommitment "+cfg.String(), fmt.Sprintf("keys of %d lengths, alone, below and above another key", len(lens)))
	defer end()
	c.Par(len(lens)*3, func(i int) {
		k := pat(lens[i/3], 5)
		other := []string{"", k + "z", k[:len(k)/2]}[i%3]
		c.Case(s, fmt.Sprintf("key of %d bytes next to %d bytes", len(k), len(other)), func() {
			x, y := NewSUT(cfg), NewSUT(cfg)
			x.poison = true
			for _, t := range []*SUT{x, y} {
				t.Apply(Op{'U', other, "o"})
				if t == x {
					t.Apply(Op{'I', k, ""})
				} else {
					t.Apply(Op{'U', k, k})
				}
				t.Apply(Op{T: 'P'})
				t.Apply(Op{T: 'R'})
				aspectRoot(t, nil)
			}
			if !bytes.Equal(rootOf(x.tr), rootOf(y.tr)) || !eqMap(x.ts.m, y.ts.m) {
				failf("InsertKeyCommitment(%s) gives %s %s, Update(key, key) %s %s", q(k), hx(rootOf(x.tr)), mapStr(x.ts.m), hx(rootOf(y.tr)), mapStr(y.ts.m))
			}
			atomic.AddInt64(&s.Transitions, 2)
		})
	})
}

// keyOptKnown replays the recorded findings
func (c *Ctx) keyOptKnown() {
	s, end := c.Begin("known findings", "the recorded inputs")
	defer end()
	cfg := b2b(a16, h256).opt()
	u := unpackRef("key", cfg.Arity)
	m := cfg.NewModel()
	same := rootOfContent(cfg, m, map[string]string{"key": "key"}) == rootOfContent(cfg, m, map[string]string{"key": u})
	if same && !c.Known("value unpack(key) = value key, arity 16") {
		c.report(s.Name, "K3", "the values unpack(key) and key have the same root", "")
	}
	x := NewSUT(cfg)
	x.Apply(Op{'I', "key", ""})
	x.Apply(Op{T: 'C'})
	p := m.(*trie_blake2b.CommitmentModel).Proof([]byte("key"), x.tr)
	if trie_blake2b_verify.ValidateWithValue(p, rootOf(x.tr), []byte("key")) != nil && !c.Known("ValidateWithValue(key), arity 16") {
		c.report(s.Name, "K3v", "the proof of the key whose value is the key does not validate with the value", "")
	}
	// in arity 256 none of them
	cfg = b2b(a256, h256).opt()
	c.Case(s, "arity 256", func() {
		x := NewSUT(cfg)
		x.Apply(Op{'I', "key", ""})
		x.Apply(Op{T: 'C'})
		p := x.m.(*trie_blake2b.CommitmentModel).Proof([]byte("key"), x.tr)
		if err := trie_blake2b_verify.ValidateWithValue(p, rootOf(x.tr), []byte("key")); err != nil {
			failf("proof of the key commitment: %v", err)
		}
	})
	c.Case(s, "kzg", func() {
		x := NewSUT(cfgKZG.opt())
		x.Apply(Op{'I', "key", ""})
		x.Apply(Op{'U', "kez", "kez"})
		x.Apply(Op{T: 'P'})
		x.Apply(Op{T: 'R'})
		p, ok := trie_kzg_bn256.Model.ProofOfInclusion([]byte("key"), x.tr)
		if !ok || p.Validate(trie.RootCommitment(x.tr), []byte("key")) != nil {
			failf("proof of the key commitment is not valid")
		}
	})
	atomic.AddInt64(&s.Transitions, 4)
}
