package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C22", "model_checking", runC22)
}

// yieldStore is a scheduling point in front of every access to a store
type yieldStore struct {
	trie.KVReader
	w trie.KVWriter
	s *sched
}

func (y *yieldStore) Get(k []byte) []byte { y.s.Yield(); return y.KVReader.Get(k) }
func (y *yieldStore) Has(k []byte) bool   { y.s.Yield(); return y.KVReader.Has(k) }
func (y *yieldStore) Set(k, v []byte)     { y.s.Yield(); y.w.Set(k, v) }

// world is everything shared by the threads of one schedule
type world struct {
	s      *sched
	cfg    Cfg
	m      trie.CommitmentModel
	ts, vs *yieldStore
	reader *trie.TrieReader
	root   trie.VCommitment
}

// stores of the repository
var baseStores = map[string]func() trie.KVStore{
	"memory": trie.NewInMemoryKVStore,
	"hive":   func() trie.KVStore { return hive_adaptor.NewHiveKVStoreAdaptor(mapdb.NewMapDB(), []byte("prefix")) },
}

func freshModel(cfg Cfg) trie.CommitmentModel {
	if cfg.Kind == "kzg" {
		return &trie_kzg_bn256.CommitmentModel{TrustedSetup: trie_kzg_bn256.Model.TrustedSetup}
	}
	return cfg.NewModel()
}

type persistedTrie struct {
	recs map[string]string
	root trie.VCommitment
}

var persistedTries = map[string]*persistedTrie{}

// persisted is the content committed and persisted with another instance of the model
func persisted(cfg Cfg, content map[string]string) *persistedTrie {
	id := fmt.Sprintf("%s %q", cfg, content)
	if p := persistedTries[id]; p != nil {
		return p
	}
	ts, vs := trie.NewInMemoryKVStore(), trie.NewInMemoryKVStore()
	tr := newTrieOver(cfg, freshModel(cfg), ts, vs)
	for _, k := range sortedKeys(content) {
		tr.Update([]byte(k), []byte(content[k]))
		vs.Set([]byte(k), []byte(content[k]))
	}
	tr.Commit()
	tr.PersistMutations(ts)
	p := &persistedTrie{map[string]string{}, trie.RootCommitment(tr)}
	ts.Iterate(func(k, v []byte) bool { p.recs[string(k)] = string(v); return true })
	persistedTries[id] = p
	return p
}

func newWorld(s *sched, cfg Cfg, base string, content map[string]string) *world {
	w := &world{s: s, cfg: cfg, m: freshModel(cfg)}
	ts, vs := baseStores[base](), baseStores[base]()
	p := persisted(cfg, content)
	for k, v := range p.recs {
		ts.Set([]byte(k), []byte(v))
	}
	for k, v := range content {
		vs.Set([]byte(k), []byte(v))
	}
	w.root = p.root
	w.ts, w.vs = &yieldStore{ts, ts, s}, &yieldStore{vs, vs, s}
	w.reader = w.newReader()
	return w
}

func newTrieOver(cfg Cfg, m trie.CommitmentModel, ts, vs trie.KVReader) *trie.Trie {
	if cfg.Thr == 0 {
		vs = nil
	}
	return trie.New(m, ts, vs, cfg.KeyOpt)
}

func (w *world) newReader() *trie.TrieReader {
	if w.cfg.Thr == 0 {
		return trie.NewTrieReader(w.m, w.ts, nil)
	}
	return trie.NewTrieReader(w.m, w.ts, w.vs)
}

// read is the program of a reader
func (w *world) read(r *trie.TrieReader, what string, keys ...string) func() string {
	return func() string {
		var b bytes.Buffer
		for _, x := range what {
			w.s.Yield()
			switch x {
			case 'r':
				fmt.Fprintf(&b, "root %x\n", rootOf(r))
			case 'n':
				for _, k := range keys {
					u := trie.UnpackBytes([]byte(k), w.cfg.Arity)
					for i := 0; i <= len(u); i++ {
						if n, ok := r.GetNode(u[:i]); ok {
							fmt.Fprintf(&b, "node %x: %s\n", u[:i], nodeStr(n))
						}
					}
				}
			case 'p':
				for _, k := range keys {
					fmt.Fprintf(&b, "proof %x: %x\n", k, proofStr(r, k))
				}
			case 'v':
				for _, k := range keys {
					fmt.Fprintf(&b, "validated %x: %s\n", k, w.validated(r, k))
				}
			}
		}
		return b.String()
	}
}

func (w *world) validated(r trie.NodeStore, k string) string {
	switch m := w.m.(type) {
	case *trie_blake2b.CommitmentModel:
		return validations(m.Proof([]byte(k), r), w.root.Bytes(), w.s)
	case *trie_kzg_bn256.CommitmentModel:
		p, ok := m.ProofOfInclusion([]byte(k), r)
		if !ok {
			return "none"
		}
		w.s.Yield()
		return fmt.Sprint(p.Validate(w.root), p.Validate(w.root, []byte("1")))
	}
	return ""
}

func validations(p *trie_blake2b.Proof, root []byte, s *sched) string {
	s.Yield()
	var b bytes.Buffer
	fmt.Fprint(&b, trie_blake2b_verify.Validate(p, root), " ")
	s.Yield()
	fmt.Fprint(&b, trie_blake2b_verify.ValidateWithValue(p, root, []byte("1")), " ")
	s.Yield()
	fmt.Fprintf(&b, "%v %x ", trie_blake2b_verify.IsProofOfAbsence(p), trie_blake2b_verify.CommitmentToTheTerminalNode(p))
	k, t := trie_blake2b_verify.MustKeyWithTerminal(p)
	fmt.Fprintf(&b, "%x %x ", k, t)
	s.Yield()
	q, err := trie_blake2b.ProofFromBytes(p.Bytes())
	if err != nil {
		return "not decoded: " + err.Error()
	}
	fmt.Fprintf(&b, "%x", q.Bytes())
	return b.String()
}

// write is the program of a thread with its own trie over its own stores, sharing the model
func (w *world) write(base string, muts []Op) func() string {
	return func() string {
		ts, vs := baseStores[base](), baseStores[base]()
		yt, yv := &yieldStore{ts, ts, w.s}, &yieldStore{vs, vs, w.s}
		tr := newTrieOver(w.cfg, w.m, yt, yv)
		var b bytes.Buffer
		for _, o := range muts {
			w.s.Yield()
			switch o.T {
			case 'U':
				tr.Update([]byte(o.K), []byte(o.V))
				vs.Set([]byte(o.K), []byte(o.V))
			case 'D':
				tr.Delete([]byte(o.K))
			case 'C':
				tr.Commit()
				fmt.Fprintf(&b, "root %x\n", rootOf(tr))
			case 'F':
				tr.PersistMutations(yt)
				tr.ClearCache()
			case 'L':
				tr = tr.Clone()
			case 'g':
				fmt.Fprintf(&b, "proof %x %x\n", o.K, proofStr(tr, o.K))
			}
		}
		var recs []string
		ts.Iterate(func(k, v []byte) bool {
			recs = append(recs, fmt.Sprintf("%x=%x", k, v))
			return true
		})
		sort.Strings(recs)
		fmt.Fprint(&b, recs)
		return b.String()
	}
}

func runC22(c *Ctx) {
	if !raceEnabled {
		panic("harness error: built without the race detector")
	}
	content := map[string]string{"a": "1", "ab": "22", "ac": pat(40, 1), "abc": "abc", "b": pat(33, 2)}
	small := map[string]string{"a": "1", "ab": "2"}
	cfgs := []Cfg{b2b(a256, h160), b2b(a16, h256).opt().thr(2), b2b(a2, h160).thr(34)}
	// with the KZG model
	kz := map[string]string{"a": "1", "ab": "2"}
	c.Explore("kzg readers x2", c.pick(1, 2), int64(c.pick(60, 4000)), func(s *sched) []func() string {
		w := newWorld(s, cfgKZG, "memory", kz)
		return []func() string{w.read(w.reader, "rp", "ab"), w.read(w.reader, "np", "a")}
	})
	c.Explore("kzg validations x2", c.pick(1, 2), int64(c.pick(40, 4000)), func(s *sched) []func() string {
		w := newWorld(s, cfgKZG, "memory", kz)
		m := w.m.(*trie_kzg_bn256.CommitmentModel)
		p, _ := m.ProofOfInclusion([]byte("ab"), w.reader)
		v := func() string {
			s.Yield()
			r := fmt.Sprint(p.Validate(w.root))
			s.Yield()
			r += fmt.Sprint(p.Validate(w.root, []byte("2"))) + fmt.Sprintf("%x", p.Bytes())
			s.Yield()
			q, err := trie_kzg_bn256.ProofOfInclusionFromBytes(p.Bytes())
			if err != nil {
				return err.Error()
			}
			return r + fmt.Sprintf("%x", q.Bytes())
		}
		return []func() string{v, v}
	})
	c.Explore("kzg writer and reader", c.pick(1, 2), int64(c.pick(40, 4000)), func(s *sched) []func() string {
		w := newWorld(s, cfgKZG, "memory", kz)
		return []func() string{
			w.write("memory", []Op{{'U', "b", "b"}, {'U', "bc", "2"}, {T: 'C'}, {T: 'F'}, {'U', "bc", "3"}, {T: 'C'}, {'g', "b", ""}}),
			w.read(w.reader, "rpv", "ab"),
		}
	})
	// with the Blake2b model
	for _, cfg := range cfgs {
		cfg := cfg
		for _, base := range []string{"memory", "hive"} {
			base := base
			for _, shared := range []bool{true, false} {
				shared := shared
				two := func(w *world) (*trie.TrieReader, *trie.TrieReader) {
					if shared {
						return w.reader, w.reader
					}
					return w.reader, w.newReader()
				}
				name := fmt.Sprintf("%s %s shared reader=%v ", cfg, base, shared)
				if base == "hive" && shared && c.quick() {
					continue
				}
				if cfg != cfgs[0] && (base == "memory") != shared && c.quick() {
					continue
				}
				full := -1
				if cfg != cfgs[0] && c.quick() {
					full = 2
				}
				max := int64(c.pick(5000, 100000))
				c.Explore(name+"root and proof x2", full, max, func(s *sched) []func() string {
					w := newWorld(s, cfg, base, small)
					r1, r2 := two(w)
					return []func() string{w.read(r1, "rp", "ab"), w.read(r2, "pr", "a")}
				})
				c.Explore(name+"nodes and validation x2", c.pick(2, 4), max, func(s *sched) []func() string {
					w := newWorld(s, cfg, base, content)
					r1, r2 := two(w)
					return []func() string{w.read(r1, "nv", "abc"), w.read(r2, "vn", "ac")}
				})
				c.Explore(name+"absent and present x3", c.pick(1, 3), max, func(s *sched) []func() string {
					w := newWorld(s, cfg, base, content)
					r1, r2 := two(w)
					return []func() string{w.read(r1, "vp", "abz", "b"), w.read(r2, "rv", "ac"), w.read(w.reader, "pr", "", "ab")}
				})
			}
			if base == "hive" && c.quick() {
				continue
			}
			max := int64(c.pick(5000, 100000))
			c.Explore(fmt.Sprintf("%s %s shared proof, validated x3", cfg, base), c.pick(2, -1), max, func(s *sched) []func() string {
				w := newWorld(s, cfg, base, content)
				p := w.m.(*trie_blake2b.CommitmentModel).Proof([]byte("abc"), w.reader)
				q := w.m.(*trie_blake2b.CommitmentModel).Proof([]byte("abq"), w.reader)
				return []func() string{
					func() string { return validations(p, w.root.Bytes(), s) },
					func() string { return validations(p, w.root.Bytes(), s) + validations(q, w.root.Bytes(), s) },
					func() string { return validations(q, w.root.Bytes(), s) },
				}
			})
			c.Explore(fmt.Sprintf("%s %s tries over different stores x2", cfg, base), c.pick(2, 3), max, func(s *sched) []func() string {
				w := newWorld(s, cfg, base, nil)
				return []func() string{
					w.write(base, []Op{{'U', "a", "1"}, {'U', "ab", "ab"}, {T: 'C'}, {T: 'F'}, {'U', "ac", pat(40, 3)}, {'D', "ab", ""}, {T: 'C'}, {'g', "a", ""}, {T: 'F'}}),
					w.write(base, []Op{{'U', "ab", "ab"}, {'U', "b", pat(40, 5)}, {T: 'C'}, {T: 'L'}, {T: 'F'}, {'g', "ab", ""}, {'U', "a", "7"}, {T: 'C'}, {T: 'F'}}),
				}
			})
			c.Explore(fmt.Sprintf("%s %s writer and readers x3", cfg, base), c.pick(1, 2), max, func(s *sched) []func() string {
				w := newWorld(s, cfg, base, content)
				return []func() string{
					w.write(base, []Op{{'U', "ab", "ab"}, {'U', "ac", pat(40, 3)}, {T: 'C'}, {T: 'F'}, {'D', "ab", ""}, {T: 'C'}}),
					w.read(w.reader, "rnv", "ab"), w.read(w.newReader(), "vr", "abc", "q"),
				}
			})
		}
	}
}
