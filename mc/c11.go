package main

import (
	"bytes"
	"fmt"
	"sort"
	"sync/atomic"

	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C11", "model_checking", runC11)
}

// reported keys as a sorted list with repetitions
func reported(tr *trie.Trie, st trie.KVIterator) []string {
	var r []string
	for _, k := range tr.Reconcile(st) {
		r = append(r, string(k))
	}
	sort.Strings(r)
	return r
}

func inconsistentKeys(content, store map[string]string) []string {
	var r []string
	for k, v := range store {
		if w, ok := content[k]; !ok || w != v {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func keysStr(k []string) string { return fmt.Sprintf("%q", k) }

func checkReconcile(what string, tr *trie.Trie, content map[string]string, st trie.KVIterator, store map[string]string) {
	got, want := reported(tr, st), inconsistentKeys(content, store)
	if keysStr(got) != keysStr(want) {
		failf("%s: trie %s, store %s: reported keys %s, inconsistent are %s", what, mapStr(content), mapStr(store), keysStr(got), keysStr(want))
	}
}

type reverseStore struct{ m map[string]string }

func (r reverseStore) Iterate(f func(k, v []byte) bool) {
	ks := sortedKeys(r.m)
	for i := len(ks) - 1; i >= 0; i-- {
		if !f([]byte(ks[i]), []byte(r.m[ks[i]])) {
			return
		}
	}
}

// stateVariants calls f with the trie of the content in different states of its cache
func stateVariants(cfg Cfg, content map[string]string, f func(what string, x *SUT)) {
	for i, what := range []string{"committed", "persisted", "reopened", "cleared", "clone", "partly persisted"} {
		x := NewSUT(cfg)
		for n, k := range sortedKeys(content) {
			if i == 5 && n == len(content)/2 {
				x.Apply(Op{T: 'P'})
				x.Apply(Op{T: 'R'})
			}
			x.Apply(Op{'U', k, content[k]})
		}
		x.Apply(Op{T: 'C'})
		switch i {
		case 1:
			x.Apply(Op{T: 'p'})
		case 2:
			x.Apply(Op{T: 'p'})
			x.Apply(Op{T: 'R'})
		case 3:
			x.Apply(Op{T: 'F'})
		case 4:
			x.Apply(Op{T: 'L'})
		}
		f(what, x)
	}
}

func (c *Ctx) reconcilePairs(cfg Cfg, name string, keys []string, vals func(key string) []string) {
	nv := len(vals(keys[0])) + 1
	n := 1
	for range keys {
		n *= nv
	}
	s, end := c.Begin(fmt.Sprintf("reconcile %s %s", name, cfg), fmt.Sprintf("all %d contents of the trie in 6 states of the cache x all %d contents of the store; mass update of each content from each store", n, n))
	defer end()
	decode := func(i int) map[string]string {
		m := map[string]string{}
		for _, k := range keys {
			if d := i % nv; d > 0 {
				m[k] = vals(k)[d-1]
			}
			i /= nv
		}
		return m
	}
	stores := make([]map[string]string, n)
	for i := range stores {
		stores[i] = decode(i)
	}
	c.Par(n, func(i int) {
		content := stores[i]
		c.Case(s, mapStr(content), func() {
			stateVariants(cfg, content, func(what string, x *SUT) {
				atomic.AddInt64(&s.States, 1)
				for _, st := range stores {
					checkReconcile(what, x.tr, content, &Store{m: st}, st)
				}
				atomic.AddInt64(&s.Transitions, int64(n))
				checkReconcile(what, x.tr, content, x.vs, x.vs.m) // the value store itself
				aspectRoot(x, nil)
				if what == "committed" || what == "reopened" {
					diffViews(what+" after reconciliation", sutView(x.tr, cfg, keys, content), expectedView(cfg, content, keys))
				}
				x.persistCopy()
			})
			// mass update
			for j, st := range stores {
				x := NewSUT(cfg)
				for _, k := range sortedKeys(content) {
					x.Apply(Op{'U', k, content[k]})
				}
				x.Apply(Op{T: 'P'})
				if j%2 == 1 {
					x.Apply(Op{T: 'R'})
				}
				x.tr.UpdateAll(&Store{m: st})
				for k, v := range st {
					x.content[k] = v
				}
				x.Apply(Op{T: 'C'})
				checkReconcile("after a mass update", x.tr, x.content, &Store{m: st}, st)
				if r := reported(x.tr, reverseStore{st}); len(r) != 0 {
					failf("inconsistent after a mass update: %s", keysStr(r))
				}
				aspectRoot(x, nil)
				if j%5 == 0 {
					x.persistCopy()
				}
				atomic.AddInt64(&s.Transitions, 1)
			}
		})
	})
}

// reconcileSweeps: long keys and values, one byte changed at any place
func (c *Ctx) reconcileSweeps(cfg Cfg) {
	s, end := c.Begin("reconcile lengths "+cfg.String(), "key and value lengths; every single key of the store absent from the trie, its value changed, cut, extended")
	defer end()
	vl := append(rng(1, 40, 1), 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000, 65535)
	kl := append(rng(1, 36, 1), 63, 64, 65, 127, 128, 129, 255, 256, 300)
	nk, fk := sweepKeyLens(kl)
	nv, fv := sweepValLens(vl)
	nd, fd := sweepDepth([]int{2, 5, 9})
	nf, ff := sweepFan([]int{2, 16, 17, 256})
	c.Par(nk+nv+nd+nf, func(i int) {
		var keys, vals []string
		var id string
		switch {
		case i < nk:
			keys, vals, id = fk(i)
		case i < nk+nv:
			keys, vals, id = fv(i - nk)
		case i < nk+nv+nd:
			keys, vals, id = fd(i - nk - nv)
		default:
			keys, vals, id = ff(i - nk - nv - nd)
		}
		content := map[string]string{}
		for j, k := range keys {
			content[k] = vals[j%len(vals)]
			if cfg.KeyOpt && j%2 == 1 && k != "" {
				content[k] = k
			}
		}
		c.Case(s, id, func() {
			stateVariants(cfg, content, func(what string, x *SUT) {
				atomic.AddInt64(&s.States, 1)
				check := func(st map[string]string) {
					checkReconcile(what, x.tr, content, &Store{m: st}, st)
					atomic.AddInt64(&s.Transitions, 1)
				}
				check(content)
				check(map[string]string{})
				for n, k := range keys {
					if n > 20 {
						break
					}
					v := content[k]
					var alt []string
					for _, p := range []int{0, len(v) / 2, len(v) - 1} {
						b := []byte(v)
						b[p] ^= 0x40
						alt = append(alt, string(b))
					}
					alt = append(alt, v+"x", v+"\x00", "\x01"+v)
					if len(v) > 1 {
						alt = append(alt, v[:len(v)-1], v[1:])
					}
					if v != k && k != "" {
						alt = append(alt, k)
					}
					for _, w := range alt {
						if cfg.KeyOpt && w == unpackRef(k, cfg.Arity) && v == k {
							continue // K3
						}
						st := cp(content)
						st[k] = w
						check(st)
					}
					for _, k2 := range []string{k + "\x00", k + "z", "z" + k} {
						st := cp(content)
						st[k2] = v
						check(st)
					}
					if len(k) > 1 {
						st := cp(content)
						st[k[:len(k)-1]] = v
						check(st)
						st[k[1:]] = v
						check(st)
					}
				}
				x.persistCopy()
			})
		})
	})
}

// reconcileStores: the real stores
func (c *Ctx) reconcileStores(cfg Cfg) {
	keys := universes6["mix"]
	s, end := c.Begin("reconcile with real stores "+cfg.String(), "all subsets of 6 keys in the trie x in the store; the in-memory store and a partition of mapdb with neighbours")
	defer end()
	c.Par(1<<uint(len(keys)), func(sub int) {
		content := map[string]string{}
		for i, k := range keys {
			if sub&(1<<uint(i)) != 0 {
				content[k] = "v" + k
			}
		}
		c.Case(s, mapStr(content), func() {
			x := NewSUT(cfg)
			for _, k := range sortedKeys(content) {
				x.Apply(Op{'U', k, content[k]})
			}
			x.Apply(Op{T: 'P'})
			x.Apply(Op{T: 'R'})
			for sub2 := 0; sub2 < 1<<uint(len(keys)); sub2++ {
				st := map[string]string{}
				im := trie.NewInMemoryKVStore()
				db := mapdb.NewMapDB()
				_ = db.Set([]byte("\x01"), []byte("neighbour"))
				_ = db.Set([]byte("\x03a"), []byte("neighbour"))
				hv := hive_adaptor.NewHiveKVStoreAdaptor(db, []byte{2})
				for i, k := range keys {
					if sub2&(1<<uint(i)) != 0 {
						st[k] = "v" + k
						if (sub+i)%5 == 0 {
							st[k] = "w"
						}
						im.Set([]byte(k), []byte(st[k]))
						hv.Set([]byte(k), []byte(st[k]))
					}
				}
				checkReconcile("in-memory store", x.tr, content, im, st)
				checkReconcile("hive store", x.tr, content, hv, st)
				y := trie.New(x.m, NewStore(), NewStore(), cfg.KeyOpt)
				y.UpdateAll(hv)
				y.Commit()
				if !bytes.Equal(rootOf(y), expectFor(cfg, st).root) {
					failf("mass update from the hive store %s: wrong root", mapStr(st))
				}
				atomic.AddInt64(&s.Transitions, 3)
			}
		})
	})
}

func runC11(c *Ctx) {
	sym := Cfg{Kind: "sym", Arity: a256}
	c.largeReconcile(b2b(a256, h160), []int{300, 1100, 5000, 66000})
	c.largeReconcile(b2b(a16, h256).thr(3), []int{300, 1100, c.pick(5000, 66000)})
	short := func(string) []string { return []string{"1", "2"} }
	mixed := func(hs int) func(string) []string {
		return func(string) []string { return []string{pat(hs, 2), pat(hs+8, 2)} }
	}
	self := func(k string) []string {
		if k == "" {
			return []string{"1", "0"}
		}
		return []string{"1", k}
	}
	unis := map[string][]string{"mix": {"", "a", "ab", "ac"}, "split": {"abcd", "abce", "aX", "ab"}, "bytes": {"\x00", "\x00\x00", "\x10", "\xff"}}
	for _, un := range sortedNames(unis) {
		keys := unis[un]
		for _, cfg := range append(allB2B(), sym) {
			c.reconcilePairs(cfg, un, keys, short)
		}
		c.reconcilePairs(b2b(a256, h160).thr(25), un+" long values", keys, mixed(20))
		c.reconcilePairs(b2b(a16, h256).thr(100), un+" long values", keys, mixed(32))
		for _, a := range allArity {
			c.reconcilePairs(b2b(a, h160).opt(), un+" key commitments", keys, self)
			c.reconcilePairs(b2b(a, h256).opt().thr(10), un+" key commitments", keys, self)
		}
	}
	c.reconcilePairs(cfgKZG, "mix", []string{"", "ab", "ac"}[:c.pick(2, 3)], short)
	for _, cfg := range append(allB2B(), b2b(a256, h160).thr(33), b2b(a16, h160).opt(), b2b(a2, h256).opt().thr(33)) {
		c.reconcileSweeps(cfg)
		c.reconcileStores(cfg)
	}
	if !c.quick() {
		for _, cfg := range allB2B() {
			c.reconcilePairs(cfg.opt(), "5 keys", []string{"", "a", "ab", "ac", "b"}, self)
		}
		c.reconcilePairs(b2b(a256, h160), "4 values", []string{"ab", "ac", "a"}, func(k string) []string { return []string{"1", "11", pat(20, 1), pat(21, 1)} })
	}
	// known findings
	s, end := c.Begin("known findings", "K2 in all arities and hash sizes")
	defer end()
	for _, cfg := range allB2B() {
		x := pat(40, 3)
		content, st := map[string]string{"k": x}, map[string]string{"k": string(commitRef(x, cfg.HS))}
		msg := runCase(func() {
			t := NewSUT(cfg)
			t.Apply(Op{'U', "k", x})
			t.Apply(Op{T: 'C'})
			checkReconcile("committed", t.tr, content, &Store{m: st}, st)
		})
		atomic.AddInt64(&s.Transitions, 1)
		if msg != "" && !c.Known("store value hash(x), trie value x") {
			c.report(s.Name, "K2", msg, "")
		}
	}
}
