package main

import (
	"fmt"
	"sync/atomic"

	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C05", "model_checking", runC05)
}

// aspectProofs: proofs of all probe keys from the trie itself (if committed), from a trie opened over the store, from a
// reader, and from a trie with its cache cleared
func aspectProofs(c *Ctx, keys []string, vals []string) Aspect {
	return func(s *SUT, h []Op) {
		pr := probesFor(keys)
		if len(pr) > 40 {
			pr = pr[:40]
		}
		do := func(ns trie.NodeStore, content map[string]string, n int) {
			root := expectFor(s.cfg, content).root
			for i, k := range pr {
				if n > 1 && i%n != len(h)%n {
					continue
				}
				o := checkProof(ns, s.cfg, content, root, k, vals)
				c.outcomeFast(o)
			}
		}
		do(s.reader(), s.persisted, 1)
		if !s.dirty {
			do(s.tr.Clone(), s.content, 1)
		}
		do(newTrie(s.cfg, s.m, s.ts, s.vs), s.persisted, 3)
		x := s.tr
		x.ClearCache()
		do(x, s.persisted, 3)
	}
}

func aspectProofsH(c *Ctx) Aspect {
	return func(s *SUT, h []Op) {
		ks := keysOfHist(h)
		if len(ks) > 6 {
			ks = append(append([]string{}, ks[:3]...), ks[len(ks)-3:]...)
		}
		keep := s.tr.Clone()
		aspectProofs(c, ks, []string{"v", "0"})(s, h)
		s.tr = keep
	}
}

func runC05(c *Ctx) {
	sym := Cfg{Kind: "sym", Arity: a256}
	c.Pumps([]Cfg{b2b(a256, h160), b2b(a16, h256)}, aspectProofsH(c), false)
	c.Large([]Cfg{b2b(a256, h160), b2b(a2, h160)}, []int{300, 1100, c.pick(5000, 65600)}, aspectProofsH(c))
	c.Deep([]Cfg{b2b(a256, h160), b2b(a2, h160)}, []int{70, 140, 270, c.pick(400, 1100)}, aspectProofsH(c))
	vals := []string{"1", "2", "", "1\x01", pat(40, 1), pat(33, 1), pat(21, 3)}
	us := []string{"chain", "split"}
	if !c.quick() {
		us = sortedNames(universes3)
	}
	for _, un := range us {
		c.Closures([]Cfg{b2b(a256, h160)}, pickUni(un), []string{"1"}, "CFXR", nil, aspectProofs(c, universes3[un], vals[1:c.pick(2, 5)]), 0, 0)
	}
	for _, un := range []string{"chain", "fork", "nib2", "split"} {
		c.Closures([]Cfg{b2b(a16, h256), b2b(a2, h160)}, pickUni(un), []string{"1"}, "CFXR", nil, aspectProofs(c, universes3[un], vals[1:4]), 0, 0)
	}
	two := map[string][]string{"2keys": {"ab", "ac"}}
	c.Closures([]Cfg{b2b(a256, h160).thr(5)}, two, []string{"1", pat(40, 1)}, "CFXR", nil, aspectProofs(c, two["2keys"], vals), 0, 0)
	c.Closures([]Cfg{b2b(a16, h256).opt()}, two, []string{"1"}, "CFXRK", nil, aspectProofs(c, two["2keys"], vals), 0, 0)
	// all contents of 6 keys with different value lengths; every probe key
	for _, un := range sortedNames(universes6) {
		keys := universes6[un]
		for _, cfg := range append(allB2B(), sym) {
			c.contentsProofs(cfg, un, keys)
		}
		for _, cfg := range []Cfg{b2b(a16, h160), b2b(a2, h160)} {
			c.Phases(cfg, un, keys, []string{"1"}, c.pick(1, 2), "RC", func(s *SUT, h []Op) {
				keep := s.tr.Clone()
				aspectProofs(c, keys, vals[:3])(s, h)
				s.tr = keep
			})
		}
	}
	c.AllSweeps([]Cfg{b2b(a256, h160), b2b(a16, h256), b2b(a2, h160).thr(25)}, aspectProofsH(c), "kvfd")
	c.Bulk([]Cfg{b2b(a256, h160), b2b(a16, h256), b2b(a2, h160)}, aspectProofsH(c))
	n, f := sweepSymbols(c.pick(255, 5))
	c.Sweep("symbol pairs", []Cfg{b2b(a256, h160), b2b(a2, h256), b2b(a16, h160)}, n, f, aspectProofsH(c))
	if !c.quick() {
		c.Closures([]Cfg{b2b(a256, h256)}, pickUni("fork"), []string{"1", "2"}, "CFXR", nil, aspectProofs(c, universes3["fork"], vals), 0, 0)
		c.AllSweeps([]Cfg{b2b(a256, h256), b2b(a16, h160), b2b(a2, h256), b2b(a16, h256).opt()}, aspectProofsH(c), "Skvfd")
	}
	c.flushOutcomes()
	s, end := c.Begin("known findings", "K2 in all arities and hash sizes")
	defer end()
	for _, cfg := range allB2B() {
		x := pat(40, 3)
		content := map[string]string{"k": x}
		msg := runCase(func() {
			t := NewSUT(cfg)
			t.Apply(Op{'U', "k", x})
			t.Apply(Op{T: 'C'})
			checkProof(t.tr, cfg, content, expectFor(cfg, content).root, "k", []string{string(commitRef(x, cfg.HS))})
		})
		atomic.AddInt64(&s.Transitions, 1)
		if msg != "" && !c.Known("value hash(x) for the value x") {
			c.report(s.Name, "K2", msg, "")
		}
	}
}

// contentsProofs: all contents over the keys with all assignments of values from 3 length classes (short, equal to the hash size, longer),
// all probe keys
func (c *Ctx) contentsProofs(cfg Cfg, name string, keys []string) {
	s, end := c.Begin(fmt.Sprintf("contents %s %s", name, cfg), fmt.Sprintf("all 3^%d assignments (absent/short/long value), every probe key", len(keys)))
	defer end()
	n := 1
	for range keys {
		n *= 3
	}
	probes := probesFor(keys)
	hs := int(cfg.HS)
	if hs == 0 {
		hs = 32
	}
	vals := []string{"1", pat(hs, 5), pat(hs+1, 5), pat(hs-1, 5), pat(hs+1, 6)}
	c.Par(n, func(i int) {
		content := map[string]string{}
		for j, x := 0, i; j < len(keys); j++ {
			switch x % 3 {
			case 1:
				content[keys[j]] = vals[(i+j)%2]
			case 2:
				content[keys[j]] = vals[2]
			}
			x /= 3
		}
		if !c.Case(s, mapStr(content), func() {
			x := NewSUT(cfg)
			for _, k := range sortedKeys(content) {
				x.Apply(Op{'U', k, content[k]})
			}
			x.Apply(Op{T: 'P'})
			root := expectFor(cfg, content).root
			rd := x.reader()
			for _, k := range probes {
				a := checkProof(x.tr, cfg, content, root, k, vals)
				b := checkProof(rd, cfg, content, root, k, vals[:1])
				if a != b {
					failf("proof of %s from the trie: %s, from the reader: %s", q(k), a, b)
				}
				c.outcomeFast(a)
			}
		}) {
			return
		}
		atomic.AddInt64(&s.Transitions, int64(2*len(probes)))
	})
}
