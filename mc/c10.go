package main

import (
	"bytes"
	"fmt"
	"sync/atomic"

	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C10", "model_checking", runC10)
}

// held are the objects a caller took from a committed trie, with their content at that time
type held struct {
	s     *SUT
	root  trie.VCommitment
	rootB []byte
	keys  []string
	b2b   []*trie_blake2b.Proof
	kzg   []*trie_kzg_bn256.ProofOfInclusion
	bytes [][]byte
	at    map[string]string // content
}

func hold(s *SUT, ns trie.NodeStore, content map[string]string, keys []string) *held {
	h := &held{s: s, at: cp(content)}
	h.root = trie.RootCommitment(ns)
	h.rootB = append([]byte{}, commBytes(h.root)...)
	for _, k := range keys {
		kb := []byte(k)
		switch m := s.m.(type) {
		case *trie_blake2b.CommitmentModel:
			p := m.Proof(kb, ns)
			h.b2b = append(h.b2b, p)
			h.bytes = append(h.bytes, append([]byte{}, p.Bytes()...))
		case *trie_kzg_bn256.CommitmentModel:
			p, ok := m.ProofOfInclusion(kb, ns)
			if !ok {
				continue
			}
			h.kzg = append(h.kzg, p)
			h.bytes = append(h.bytes, append([]byte{}, p.Bytes()...))
		default:
			continue
		}
		h.keys = append(h.keys, k)
		flip(kb)
	}
	h.check("right after the key buffers are reused")
	return h
}

func flip(b []byte) {
	for i := range b {
		b[i] ^= 0xA5
	}
}

// check: everything is as it was
func (h *held) check(when string) {
	if !bytes.Equal(commBytes(h.root), h.rootB) {
		failf("%s: the root commitment of %s taken before has changed", when, mapStr(h.at))
	}
	for i, p := range h.b2b {
		if !bytes.Equal(p.Bytes(), h.bytes[i]) {
			failf("%s: the proof of %s in %s taken before has changed", when, q(h.keys[i]), mapStr(h.at))
		}
		if err := trie_blake2b_verify.Validate(p, h.rootB); err != nil {
			failf("%s: the proof of %s in %s is not valid any more: %v", when, q(h.keys[i]), mapStr(h.at), err)
		}
		if v, ok := h.at[h.keys[i]]; ok == trie_blake2b_verify.IsProofOfAbsence(p) {
			failf("%s: the proof of %s (value %s) in %s has another meaning", when, q(h.keys[i]), q(v), mapStr(h.at))
		}
	}
	for i, p := range h.kzg {
		if !bytes.Equal(p.Bytes(), h.bytes[i]) {
			failf("%s: the proof of %s in %s taken before has changed", when, q(h.keys[i]), mapStr(h.at))
		}
		if string(p.Key) != h.keys[i] {
			failf("%s: the proof of %s in %s has the key %x", when, q(h.keys[i]), mapStr(h.at), p.Key)
		}
	}
	if len(h.kzg) > 0 {
		i := len(h.kzg) - 1
		if err := h.kzg[i].Validate(h.root, []byte(h.at[h.keys[i]])); err != nil {
			failf("%s: the proof of %s in %s is not valid any more: %v", when, q(h.keys[i]), mapStr(h.at), err)
		}
	}
}

// spoil overwrites everything in the objects
func (h *held) spoil() {
	for _, p := range h.b2b {
		flip(p.Key)
		flip(p.Key[:cap(p.Key)])
		for _, e := range p.Path {
			flip(e.PathFragment[:cap(e.PathFragment)])
			flip(e.Terminal[:cap(e.Terminal)])
			for i, ch := range e.Children {
				flip(ch[:cap(ch)])
				e.Children[i] = nil
			}
			e.Children[7] = []byte{1}
		}
	}
	for _, p := range h.kzg {
		flip(p.Key[:cap(p.Key)])
		p.Terminal.SetInt64(77)
		for _, e := range p.Path {
			e.C.Null()
			e.Proof.Null()
		}
	}
	flip(commBytes(h.root))
}

// memoryAspect is evaluated in every state: whatever the caller got from the trie survives every next operation and
// persisting, and overwriting it is without effect for the trie
func memoryAspect(mk func() *SUT, ops []Op, keys []string) Aspect {
	return func(s *SUT, h []Op) {
		if s.dirty {
			// uncommitted: the buffers passed so far have been overwritten, the commit must be the right one
			s.commit()
			aspectRoot(s, h)
			s.persistCopy()
			return
		}
		replay := func() *SUT {
			x := mk()
			for _, o := range h {
				x.Apply(o)
			}
			return x
		}
		for _, o := range ops {
			if !s.Enabled(o) {
				continue
			}
			x := replay()
			hd := hold(x, x.tr, x.content, keys)
			hr := hold(x, x.reader(), x.persisted, keys)
			x.Apply(o)
			hd.check("after " + o.String())
			hr.check("after " + o.String())
			if x.dirty {
				x.commit()
			}
			hd.check("after " + o.String() + " and commit")
			x.persist()
			hd.check("after " + o.String() + ", commit and persist")
			hr.check("after " + o.String() + ", commit and persist")
		}
		// overwriting returned objects
		for n := 0; n < 2; n++ {
			x := replay()
			var ns trie.NodeStore = x.tr
			content := x.content
			if n == 1 {
				rd := x.reader()
				ns, content = rd, x.persisted
			}
			hold(x, ns, content, keys).spoil()
			diffViews("after overwriting returned proofs", sutView(ns, x.cfg, keys, content), expectedView(x.cfg, content, keys))
			checkStructure(x.tr.Clone(), x.content, x.cfg)
			x.persistCopy()
			for _, k := range keys {
				if _, ok := x.content[k]; ok {
					x.Apply(Op{'D', k, ""})
				} else {
					x.Apply(Op{'U', k, "7"})
				}
				hold(x, x.reader(), x.persisted, keys).spoil()
				x.Apply(Op{T: 'C'})
				aspectRoot(x, h)
				hold(x, x.tr, x.content, keys).spoil()
				x.persistCopy()
				break
			}
		}
	}
}

func (c *Ctx) memoryClosures(cfgs []Cfg, unis map[string][]string, vals []string, extra string, maxDepth int, maxStates int64) {
	for _, cfg := range cfgs {
		for _, n := range sortedNames(unis) {
			if c.Done() {
				return
			}
			cfg := cfg
			mk := func() *SUT { x := NewSUT(cfg); x.poison = true; return x }
			b := "all reachable states (complete closure) x every operation after taking proofs"
			if maxDepth > 0 {
				b = fmt.Sprintf("all histories up to depth %d x every operation after taking proofs", maxDepth)
			}
			ops := opsFor(unis[n], vals, extra)
			c.BFS(Machine{Name: fmt.Sprintf("reused buffers %s %s vals=%d ops=%s", n, cfg, len(vals), extra), Bound: b, Ops: ops, New: mk,
				Check: aspectRoot, CheckNew: memoryAspect(mk, ops, unis[n]), MaxStates: maxStates, MaxDepth: maxDepth})
		}
	}
}

// memoryHistories: longer histories with reused buffers and held proofs over many shapes
func (c *Ctx) memoryHistories(cfg Cfg, name string, n int, uni func(i int) ([]string, []string, string)) {
	s, end := c.Begin("reused buffers in histories "+name+" "+cfg.String(), fmt.Sprintf("all %d points of the sweep x 3 histories, proofs taken at every commit are held to the end", n))
	defer end()
	c.Par(n, func(i int) {
		keys, vals, id := uni(i)
		c.Case(s, id, func() {
			pk := keys
			if len(pk) > 5 {
				pk = pk[:5]
			}
			for hi, h := range scripts(keys, func(j int) string { return vals[j%len(vals)] }) {
				x := NewSUT(cfg)
				x.poison = true
				var hs []*held
				var done []Op
				if msg := runCase(func() {
					for _, o := range h {
						done = append(done, o)
						if o.T == 'U' && hi == 2 {
							k, v := []byte(o.K), []byte(o.V)
							x.tr.UpdateStr(k, v)
							flip(k)
							flip(v)
							x.content[o.K] = o.V
							x.dirty = true
						} else if o.T == 'D' && hi == 2 {
							k := []byte(o.K)
							x.tr.DeleteStr(k)
							flip(k)
							delete(x.content, o.K)
							x.dirty = true
						} else {
							x.Apply(o)
						}
						if !x.dirty {
							for _, hd := range hs {
								hd.check("after " + o.String())
							}
							aspectRoot(x, nil)
							if len(hs) < 8 {
								hs = append(hs, hold(x, x.tr, x.content, pk))
							}
						}
						atomic.AddInt64(&s.Transitions, 1)
					}
					x.commit()
					x.persistCopy()
					for _, hd := range hs {
						hd.check("at the end")
					}
					for _, hd := range hs {
						hd.spoil()
					}
					diffViews("after overwriting returned proofs", sutView(x.tr, x.cfg, pk, x.content), expectedView(x.cfg, x.content, pk))
					x.persistCopy()
				}); msg != "" {
					failf("%s\n after history: %s", msg, histStr(done))
				}
			}
		})
	})
}

// reusingStore hands out the same two buffers for all pairs and overwrites them after the call
type reusingStore struct{ m map[string]string }

func (r reusingStore) Iterate(f func(k, v []byte) bool) {
	kb, vb := make([]byte, 70000), make([]byte, 70000)
	for _, k := range sortedKeys(r.m) {
		v := r.m[k]
		copy(kb, k)
		copy(vb, v)
		ok := f(kb[:len(k)], vb[:len(v)])
		flip(kb[:len(k)])
		flip(vb[:len(v)])
		if !ok {
			return
		}
	}
}

// sharedStores: tries over the in-memory store of the package (which keeps and returns slices without copying) and
// over hive.go's mapdb
func (c *Ctx) sharedStores(cfgs []Cfg) {
	for _, cfg := range cfgs {
		cfg := cfg
		keys := universes6["mix"]
		s, end := c.Begin("stores which share memory "+cfg.String(), fmt.Sprintf("all subsets of %d keys x mass update from reused buffers x overwriting of proofs x each next mutation, over the in-memory store and over mapdb", len(keys)))
		c.Par(1<<uint(len(keys)), func(sub int) {
			content := map[string]string{}
			for i, k := range keys {
				if sub&(1<<uint(i)) != 0 {
					content[k] = []string{"v" + k, pat(19+i, byte(i)), pat(40, byte(i))}[(sub+i)%3]
				}
			}
			for kind := 0; kind < 2; kind++ {
				c.Case(s, fmt.Sprintf("%s store %d", mapStr(content), kind), func() {
					var ts, vs trie.KVStore = trie.NewInMemoryKVStore(), trie.NewInMemoryKVStore()
					if kind == 1 {
						db := mapdb.NewMapDB()
						ts, vs = hive_adaptor.NewHiveKVStoreAdaptor(db, []byte("t")), hive_adaptor.NewHiveKVStoreAdaptor(db, []byte("v"))
					}
					m := cfg.NewModel()
					var vr trie.KVReader
					if cfg.Thr > 0 {
						vr = vs
					}
					x := &SUT{cfg: cfg, m: m, content: content}
					tr := trie.New(m, ts, vr, cfg.KeyOpt)
					tr.UpdateAll(reusingStore{content})
					tr.Commit()
					tr.PersistMutations(ts)
					for k, v := range content {
						vs.Set([]byte(k), []byte(v))
					}
					dump := func() map[string]string {
						d := map[string]string{}
						ts.Iterate(func(k, v []byte) bool { d["t"+string(k)] = string(v); return true })
						vs.Iterate(func(k, v []byte) bool { d["v"+string(k)] = string(v); return true })
						return d
					}
					before := dump()
					exp := expectedView(cfg, content, keys)
					for n := 0; n < 3; n++ {
						var ns trie.NodeStore = tr
						switch n {
						case 1:
							ns = trie.NewTrieReader(m, ts, vr)
						case 2:
							ns = trie.New(m, ts, vr, cfg.KeyOpt)
						}
						hold(x, ns, content, keys).spoil()
						if !eqMap(before, dump()) {
							failf("overwriting a returned proof changed the store")
						}
						diffViews("after overwriting returned proofs", viewOf(ns, positionsOf(expectFor(cfg, content), keys, cfg), probesFor(keys), true), exp)
						diffViews("reader after overwriting returned proofs", viewOf(trie.NewTrieReader(m, ts, vr), positionsOf(expectFor(cfg, content), keys, cfg), probesFor(keys), true), exp)
					}
					// proofs taken from the store survive changes of the store
					hd := hold(x, trie.NewTrieReader(m, ts, vr), content, keys)
					for _, k := range keys {
						kb, v2 := []byte(k), []byte("w"+k)
						tr.Update(kb, v2)
						flip(kb)
						flip(v2)
						tr.Commit()
						tr.PersistMutations(ts)
						vs.Set([]byte(k), []byte("w"+k))
						hd.check("after an update of " + q(k) + " in the store")
						atomic.AddInt64(&s.Transitions, 1)
					}
					want := map[string]string{}
					for _, k := range keys {
						want[k] = "w" + k
					}
					if got := rootOf(trie.NewTrieReader(m, ts, vr)); !bytes.Equal(got, expectFor(cfg, want).root) {
						failf("root of the persisted trie is %x, expected that of %s", got, mapStr(want))
					}
				})
			}
		})
		end()
	}
}

// updaterBuffers: all short sequences of updates and commits of the batched updater with reused buffers
func (c *Ctx) updaterBuffers(cfg Cfg, keys, vals []string, depth int) {
	s, end := c.Begin(fmt.Sprintf("updater with reused buffers %s %q", cfg, keys), fmt.Sprintf("all sequences of %d operations and a commit", depth))
	defer end()
	s.MaxDepth = depth
	ops := []Op{{T: 'C'}}
	for _, k := range keys {
		for _, v := range append([]string{""}, vals...) {
			ops = append(ops, Op{'U', k, v})
		}
		if cfg.KeyOpt && k != "" {
			ops = append(ops, Op{'U', k, k})
		}
	}
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(ops)
	}
	c.Par(n, func(i int) {
		var h []Op
		for j, x := 0, i; j < depth; j++ {
			h = append(h, ops[x%len(ops)])
			x /= len(ops)
		}
		c.Case(s, histStr(h), func() {
			r := newUpdRun(cfg, "t", "v")
			r.poison = true
			for _, o := range h {
				if r.step(o) {
					failf("%s fails", o)
				}
			}
			r.final()
		})
		atomic.AddInt64(&s.Transitions, int64(len(h)+1))
	})
}

func runC10(c *Ctx) {
	sym := Cfg{Kind: "sym", Arity: a256}
	for _, un := range []string{"chain", "fork", "split", "zeros"} {
		c.memoryClosures([]Cfg{b2b(a256, h160)}, pickUni(un), []string{"1"}, "CFX", 0, 0)
	}
	c.memoryClosures([]Cfg{b2b(a16, h256), b2b(a2, h160), sym}, pickUni("fork", "split2"), []string{"1"}, "CFX", c.pick(8, 0), 0)
	two := map[string][]string{"2keys": {"ab", "ac"}, "2chain": {"a", "ab"}}
	c.memoryClosures([]Cfg{b2b(a256, h160).thr(5), b2b(a16, h256).opt().thr(30)}, two, []string{"1", pat(40, 1)}, "CFXgK", c.pick(6, 8), 0)
	c.memoryClosures([]Cfg{cfgKZG}, map[string][]string{"2keys": {"ab", "ac"}}, []string{"1"}, "CF", c.pick(4, 6), 0)
	if !c.quick() {
		c.memoryClosures([]Cfg{b2b(a256, h256), b2b(a16, h160), b2b(a2, h160).opt()}, universes3, []string{"1", "2"}, "CFXgEI", 6, 0)
	}
	for _, cfg := range []Cfg{b2b(a256, h160), b2b(a16, h256).thr(25), b2b(a2, h160), b2b(a16, h160).opt(), sym} {
		lens := []int{1, 2, 3, 19, 20, 21, 31, 32, 33, 34, 64, 127, 128, 255, 256, 300}
		n, f := sweepKeyLens(lens)
		c.memoryHistories(cfg, "key lengths", n, f)
		n, f = sweepValLens(append(rng(1, 40, 1), 63, 64, 65, 255, 256, 300))
		c.memoryHistories(cfg, "value lengths", n, f)
		n, f = sweepFan([]int{2, 3, 8, 17})
		c.memoryHistories(cfg, "fan-out", n, f)
		n, f = sweepDepth([]int{2, 3, 5, 8})
		c.memoryHistories(cfg, "chain depth", n, f)
	}
	n, f := sweepDepth([]int{2, 3})
	c.memoryHistories(cfgKZG, "chain depth", n, f)
	c.sharedStores([]Cfg{b2b(a256, h160), b2b(a16, h256).thr(25), b2b(a2, h160), b2b(a16, h160).opt(), sym})
	c.updaterBuffers(b2b(a256, h160), []string{"a", "ab"}, []string{"1", pat(40, 2)}, c.pick(5, 6))
	c.updaterBuffers(b2b(a16, h256).thr(30), []string{"ab", "ac"}, []string{"1", pat(40, 2)}, c.pick(4, 6))
	c.updaterBuffers(b2b(a2, h160).thr(100).opt(), []string{"ab", "ac"}, []string{"1"}, c.pick(5, 6))
	c.updaterBuffers(cfgKZG, []string{"ab", "ac"}, []string{"1"}, c.pick(3, 4))
}
