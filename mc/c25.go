package main

import (
	"bytes"
	"fmt"
	"sort"
	"sync/atomic"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C25", "model_checking", runC25)
}

// fromValueStore tells by the definition if the terminal of the key is taken from the value store
func fromValueStore(cfg Cfg, k, v string) bool {
	if cfg.KeyOpt && keyCommitted(cfg, k, v) {
		return false // it is taken from the key, or stored in the root node
	}
	return len(v) > 0 && len(v) <= cfg.Thr
}

// keyCommitted tells if the terminal is the commitment to the unpacked key
func keyCommitted(cfg Cfg, k, v string) bool {
	u := unpackRef(k, cfg.Arity)
	data := v
	if v == k {
		data = u
	}
	return k != "" && string(commitRef(data, cfg.HS)) == string(commitRef(u, cfg.HS))
}

// aspectValueSize compares with the same content without the optimization, and checks what is taken from where
func aspectValueSize(keys []string) Aspect {
	return func(s *SUT, h []Op) {
		if s.dirty {
			return
		}
		cfg0 := s.cfg
		cfg0.Thr = 0
		exp := expectedView(cfg0, s.content, keys)
		diffViews("trie, content "+mapStr(s.content), viewOf(s.tr.Clone(), positionsOf(expectFor(cfg0, s.content), keys, cfg0), probesFor(keys), true), exp)
		x := s.ts
		if !eqMap(s.persisted, s.content) || !eqMap(s.committed, s.content) {
			// not persisted yet
			x = s.ts.Copy()
			s.tr.PersistMutations(x)
		}
		checkValueSize(s.cfg, cfg0, s.m, x, s.content, exp, keys)
	}
}

func checkValueSize(cfg, cfg0 Cfg, m trie.CommitmentModel, ts *Store, content map[string]string, exp *view, keys []string) {
	pos := positionsOf(expectFor(cfg0, content), keys, cfg0)
	// the value store has only the values which are needed
	need := NewStore()
	for k, v := range content {
		if fromValueStore(cfg, k, v) {
			need.m[k] = v
		}
	}
	ts = ts.Copy()
	ts.frozen, need.frozen = true, true
	var vs trie.KVReader = need
	if len(need.m) == 0 {
		vs = nil
	}
	used := map[string]bool{}
	need.onGet = func(k string) { used[k] = true }
	what := fmt.Sprintf("content %s, value store %s", mapStr(content), mapStr(need.m))
	diffViews("reader: "+what, viewOf(trie.NewTrieReader(m, ts, vs), pos, probesFor(keys), true), exp)
	for k := range need.m {
		if !used[k] {
			failf("%s: the value of %s was not taken from the value store", what, q(k))
		}
	}
	for k := range used {
		if _, ok := need.m[k]; !ok {
			failf("%s: the value store was asked for %s", what, q(k))
		}
	}
	diffViews("trie: "+what, viewOf(trie.New(m, ts, vs, cfg.KeyOpt), pos, probesFor(keys), true), exp)
	// records: the ones without the optimization, without the terminals
	e0 := expectFor(cfg0, content)
	if len(e0.store) != len(ts.m) {
		failf("content %s: %d records, without the optimization %d", mapStr(content), len(ts.m), len(e0.store))
	}
	for p, n := range e0.ref.nodes {
		enc, err := trie.EncodeUnpackedBytes([]byte(p), cfg.Arity)
		if err != nil {
			failf("%v", err)
		}
		r0, ok0 := e0.store[string(enc)]
		r, ok := ts.m[string(enc)]
		if !ok || !ok0 {
			failf("content %s: record %x is missing", mapStr(content), enc)
		}
		saved := 0
		for k, v := range content {
			if unpackRef(k, cfg.Arity) == n.pos+n.pf && fromValueStore(cfg, k, v) {
				saved = 1 + len(commitRef(v, cfg.HS))
			}
		}
		if len(r0)-len(r) != saved {
			failf("content %s: the record of the node at %x has %d bytes, without the optimization %d, expected to save %d", mapStr(content), p, len(r), len(r0), saved)
		}
		if saved == 0 && cfg.Thr == 0 && r0 != r {
			failf("content %s: the record of the node at %x is %x, without the optimization %x", mapStr(content), p, r, r0)
		}
	}
	// the terminal follows the value in the store, and there is no terminal without the value
	for k := range need.m {
		n, pos := refNodeOf(e0.ref, unpackRef(k, cfg.Arity))
		if n == nil {
			failf("harness error: no node of the key %s", q(k))
		}
		t := need.Copy()
		t.m[k] = "?"
		nd, ok := trie.NewTrieReader(m, ts, t).GetNode([]byte(pos))
		if !ok || nilT(nd.Terminal()) || !m.EqualCommitments(nd.Terminal(), m.CommitToData([]byte("?"))) {
			failf("%s: the terminal of %s does not depend on the value store", what, q(k))
		}
	}
}

func refNodeOf(t *refTrie, u string) (*refNode, string) {
	for p, n := range t.nodes {
		if n.term != nil && n.pos+n.pf == u {
			return n, p
		}
	}
	return nil, ""
}

func runC25(c *Ctx) {
	c.Pump([]Cfg{b2b(a256, h160).thr(2), b2b(a16, h256).opt().thr(1)}, "Ua=12 Uab=123 Uab=12 Da Dab C p R L ga", c.pick(1, 2), []int{127, 128, 254, 255, 256, 257},
		aspectValueSize([]string{"a", "ab", "abc", "c"}))
	// a store made with one threshold, opened with another one
	for i, b := range append(allB2B(), b2b(a256, h256).opt()) {
		for _, t := range [][2]int{{0, 2}, {2, 0}, {1, 40}, {40, 1}, {20, 21}, {33, 32}} {
			if c.quick() && (i+t[0])%2 == 1 {
				continue
			}
			lens := []int{2, 40}
			if t[0] > 2 && t[1] > 2 {
				lens = []int{t[0], t[1]}
			}
			c.resettings([][2]Cfg{{b.thr(t[0]), b.thr(t[1])}}, []string{"a", "ab", "b"}, func(k string) []string {
				return []string{pat(lens[0], k[len(k)-1]), pat(lens[1], 1)}
			})
		}
	}
	var cfgs []Cfg
	for _, a := range allArity {
		for _, b := range []Cfg{b2b(a, h160), b2b(a, h256)} {
			cfgs = append(cfgs, b, b.opt())
		}
	}
	// every threshold against every length of the value
	thrs := []int{1, 2, 3, 18, 19, 20, 21, 22, 30, 31, 32, 33, 34, 40, 255, 256, 65536}
	if !c.quick() {
		thrs = rng(1, 140, 1)
	}
	thrs = dedupInts(append(thrs, 63, 64, 65, 128, 257, 1000))
	shapes := [][]string{
		{"a"}, {""}, {"ab", "ac"}, {"a", "ab"}, {"", "a"}, {"abc", "abd", "ab", "b"}, {pat(40, 2), pat(40, 2) + "x", pat(21, 2)},
	}
	for ci, cfg := range cfgs {
		if c.quick() && ci%4 != 0 && ci%4 != 3 {
			continue
		}
		s, end := c.Begin("thresholds and lengths "+cfg.String(), fmt.Sprintf("%d thresholds x lengths around the threshold and the hash size x %d shapes of the trie x 3 histories", len(thrs), len(shapes)))
		c.Par(len(thrs)*len(shapes), func(i int) {
			cfg, keys := cfg.thr(thrs[i/len(shapes)]), shapes[i%len(shapes)]
			asp := aspectValueSize(keys)
			hs := int(cfg.HS)
			for _, l := range dedupInts([]int{1, 2, hs - 1, hs, hs + 1, 2 * hs, cfg.Thr - 1, cfg.Thr, cfg.Thr + 1}) {
				if l <= 0 || c.Done() {
					continue
				}
				c.Case(s, fmt.Sprintf("threshold %d length %d keys %q", cfg.Thr, l, keys), func() {
					val := func(j int) string {
						switch j % 3 {
						case 0:
							return pat(l, 1)
						case 1:
							return pat(l+1, 2)
						}
						return pat(3, 3)
					}
					hh := scripts(keys, val)
					// overwriting with other lengths, reopened or not
					for _, mid := range []string{"CpR", "Cp", "C", ""} {
						var h []Op
						for j, k := range keys {
							h = append(h, Op{'U', k, val(j)})
						}
						for _, b := range mid {
							h = append(h, Op{T: byte(b)})
						}
						for j, k := range keys {
							h = append(h, Op{'U', k, val(j + 1)}, Op{T: 'C'})
						}
						h = append(h, Op{T: 'p'}, Op{T: 'R'}, Op{'D', keys[len(keys)-1], ""}, Op{T: 'C'}, Op{T: 'p'}, Op{T: 'R'})
						hh = append(hh, h)
					}
					for _, h := range hh {
						x := NewSUT(cfg)
						for j, o := range h {
							x.Apply(o)
							atomic.AddInt64(&s.Transitions, 1)
							asp(x, h[:j+1])
						}
					}
				})
			}
		})
		end()
	}
	// complete closures with values of both kinds
	for _, x := range []struct {
		cfg  Cfg
		un   string
		vals []string
	}{
		{b2b(a256, h160).thr(2), "fork", []string{"12", "123"}},
		{b2b(a16, h256).thr(1), "chain", []string{"1", "12"}},
		{b2b(a2, h160).thr(30), "nib2", []string{pat(30, 1), pat(31, 1)}},
		{b2b(a256, h256).thr(33).opt(), "forkE", []string{pat(33, 1), pat(40, 1)}},
	} {
		max := int64(c.pick(20000, 0))
		c.Closures([]Cfg{x.cfg}, pickUni(x.un), x.vals, "CFR", nil, aspectValueSize(universes3[x.un]), max, 0)
	}
	for _, cfg := range []Cfg{b2b(a256, h160).thr(2), b2b(a16, h160).thr(25), b2b(a2, h256).thr(32).opt()} {
		two := []string{"ab", "ac"}
		hx, lx := string(commitRef(pat(cfg.Thr+45, 1), cfg.HS)), pat(cfg.Thr+45, 1) // a value and its hash
		vals := []string{pat(cfg.Thr, 1), pat(cfg.Thr+1, 1)}
		c.Closures([]Cfg{cfg}, map[string][]string{"2keys": two}, vals, "CFXRK", nil, aspectValueSize(two), 0, 0)
		c.Closures([]Cfg{cfg}, map[string][]string{"2keys hashes": two}, []string{hx, lx}, "CFXR", nil, aspectValueSize(two), 0, 0)
	}
	// all assignments of short and long values to the keys, persisted, then all mutations
	for _, un := range sortedNames(universes6) {
		for i, cfg := range []Cfg{b2b(a256, h160).thr(2), b2b(a16, h256).thr(34), b2b(a2, h160).thr(20).opt()} {
			if c.quick() && i == len(un)%3 {
				continue
			}
			c.assignments(cfg, un, universes6[un], c.pick(1, 2))
		}
	}
	c.thresholdOf()
	// long values on both sides of large thresholds
	n, f := sweepValLens([]int{65534, 65535, 65536, 131072, 1<<20 - 1, 1 << 20})
	asp := aspectValueSize([]string{"a", "ab", "c", ""})
	c.Sweep("long values", []Cfg{b2b(a256, h160).thr(65535), b2b(a2, h256).thr(1 << 20), b2b(a16, h160).thr(1 << 21).opt()}, n, f, asp)
}

func dedupInts(x []int) []int {
	sort.Ints(x)
	var r []int
	for _, i := range x {
		if len(r) == 0 || r[len(r)-1] != i {
			r = append(r, i)
		}
	}
	return r
}

func (c *Ctx) assignments(cfg Cfg, name string, keys []string, length int) {
	if c.Done() {
		return
	}
	s, end := c.Begin(fmt.Sprintf("assignments %s %s length=%d", name, cfg, length),
		fmt.Sprintf("all assignments of no, a short or a long value to %d keys, persisted and reopened or not x all sequences of %d mutations", len(keys), length))
	defer end()
	vals := []string{pat(cfg.Thr, 5), pat(cfg.Thr+1, 5)}
	ops := opsFor(keys, vals, "")
	n, total := 1, 1
	for i := 0; i < length; i++ {
		n *= len(ops)
	}
	for range keys {
		total *= 3
	}
	s.MaxDepth = length
	asp := aspectValueSize(keys)
	c.Par(total, func(a int) {
		for w := 0; w < 2*n; w++ {
			if c.Done() {
				return
			}
			var h []Op
			for i, x := 0, a; i < len(keys); i++ {
				if x%3 > 0 {
					h = append(h, Op{'U', keys[i], vals[x%3-1]})
				}
				x /= 3
			}
			h = append(h, Op{T: 'P'})
			if w%2 == 0 {
				h = append(h, Op{T: 'R'})
			}
			first := len(h)
			for i, x := 0, w/2; i < length; i++ {
				h = append(h, ops[x%len(ops)])
				x /= len(ops)
			}
			h = append(h, Op{T: 'C'})
			if !c.Case(s, histStr(h), func() {
				x := NewSUT(cfg)
				for i, o := range h {
					x.Apply(o)
					if i >= first || w == 0 {
						asp(x, h[:i+1])
					}
				}
			}) {
				return
			}
			atomic.AddInt64(&s.Transitions, int64(len(h)))
		}
	})
}

// thresholdOf: the decision by the length of the value alone, for every threshold and length
func (c *Ctx) thresholdOf() {
	s, end := c.Begin("decision", "all thresholds 0..300 x all lengths 1..320, all hash sizes; around 2^8, 2^16")
	defer end()
	type pr struct{ t, l int }
	var ps []pr
	for t := 0; t <= 300; t++ {
		for l := 1; l <= 320; l++ {
			ps = append(ps, pr{t, l})
		}
	}
	for _, t := range []int{65535, 65536, 65537, 1 << 20} {
		for d := -2; d <= 2; d++ {
			ps = append(ps, pr{t, t + d})
		}
	}
	for _, hs := range []trie_blake2b.HashSize{h160, h256} {
		c.Par(len(ps), func(i int) {
			p := ps[i]
			c.Case(s, fmt.Sprintf("hash size %d threshold %d length %d", hs, p.t, p.l), func() {
				m := b2b(a256, hs).thr(p.t).NewModel()
				m0 := b2b(a256, hs).NewModel()
				v := []byte(pat(p.l, 1))
				t := m.CommitToData(v)
				if m.ForceStoreTerminalWithNode(t) != (p.l > p.t) {
					failf("stored with the node: %v", m.ForceStoreTerminalWithNode(t))
				}
				if !m.EqualCommitments(t, m0.CommitToData(v)) {
					failf("the commitment depends on the threshold")
				}
				cl := t.Clone()
				if m.ForceStoreTerminalWithNode(cl) != (p.l > p.t) || !m.EqualCommitments(t, cl) {
					failf("copy of the terminal differs")
				}
				if p.l > p.t {
					d := m.NewTerminalCommitment()
					if err := d.Read(bytes.NewReader(t.Bytes())); err != nil || !m.ForceStoreTerminalWithNode(d) || !m.EqualCommitments(t, d) {
						failf("the terminal read back differs: %v", err)
					}
				}
				atomic.AddInt64(&s.Transitions, 1)
			})
		})
	}
}
