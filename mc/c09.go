package main

import (
	"fmt"
	"sync/atomic"
)

func init() {
	register("C09", "model_checking", runC09)
}

// pairCheck: the committed ones of the two tries have the root of their content
func pairCheck(s *SUT, h []Op) {
	for i, x := range []*SUT{s, s.twin} {
		if x == nil {
			continue
		}
		if msg := runCase(func() { aspectRoot(x, h) }); msg != "" {
			failf("%s: %s", []string{"origin", "clone"}[i], msg)
		}
	}
}

// settle commits the trie if needed and compares everything visible and everything persisted with the fresh trie
func settle(what string, x *SUT, keys []string) {
	if x.dirty {
		x.commit()
	}
	if msg := runCase(func() {
		diffViews("content "+mapStr(x.content), sutView(x.tr, x.cfg, keys, x.content), expectedView(x.cfg, x.content, keys))
		checkStructure(x.tr, x.content, x.cfg)
		x.persistCopy()
	}); msg != "" {
		failf("%s: %s", what, msg)
	}
}

// pairFinal brings both tries to the end in both orders
func pairFinal(mk func() *SUT, keys []string) func(s *SUT, h []Op) {
	return func(s *SUT, h []Op) {
		if s.twin == nil {
			return
		}
		settle("origin", s, keys)
		settle("clone", s.twin, keys)
		settle("origin again", s, keys)
		x := mk()
		for _, o := range h {
			x.Apply(o)
		}
		settle("clone", x.twin, keys)
		settle("origin", x, keys)
		settle("clone again", x.twin, keys)
		x.tr.ClearCache()
		x.rollback()
		settle("clone, cache of the origin is cleared", x.twin, keys)
	}
}

func (c *Ctx) pairMachine(cfg Cfg, name string, keys, vals []string, pre, post string, maxDepth int, maxStates int64) {
	if c.Done() {
		return
	}
	mk := func() *SUT { return NewSUT(cfg) }
	ops := opsFor(keys, vals, pre)
	for _, o := range opsFor(keys, vals, post) {
		o.T |= twinOp
		ops = append(ops, o)
	}
	ops = append(ops, Op{T: 'T'})
	if pre != "" {
		ops = append(ops, Op{T: 'q'})
	}
	b := "all reachable states of the pair of tries (complete closure)"
	if maxDepth > 0 {
		b = fmt.Sprintf("all histories up to depth %d, the clone taken at any point", maxDepth)
	}
	c.BFS(Machine{Name: fmt.Sprintf("pairs %s %s vals=%d ops=%s/%s", name, cfg, len(vals), pre, post), Bound: b, Ops: ops, New: mk,
		Check: pairCheck, CheckNew: pairFinal(mk, keys), MaxDepth: maxDepth, MaxStates: maxStates})
}

// pairScripts: the clone is taken after each operation of longer histories, then the rest of the history is applied to the
// one and another history to the other of the two, alternating
func (c *Ctx) pairScripts(cfg Cfg, name string, n int, uni func(i int) ([]string, []string, string)) {
	s, end := c.Begin("clones in histories "+name+" "+cfg.String(), fmt.Sprintf("all %d points of the sweep x 3 histories x every point of cloning x 2 roles", n))
	defer end()
	c.Par(n, func(i int) {
		keys, vals, id := uni(i)
		if len(keys) > 9 {
			return
		}
		c.Case(s, id, func() {
			hs := scripts(keys, func(j int) string { return vals[j%len(vals)] })
			for hi, h := range hs {
				other := hs[(hi+1)%len(hs)]
				for cut := 0; cut <= len(h); cut++ {
					for role := 0; role < 2; role++ {
						x := NewSUT(cfg)
						var done []Op
						if msg := runCase(func() {
							for _, o := range h[:cut] {
								done = append(done, o)
								x.Apply(o)
							}
							done = append(done, Op{T: 'T'})
							x.Apply(Op{T: 'T'})
							a, b := h[cut:], other
							for len(a)+len(b) > 0 {
								for t := 0; t < 2; t++ {
									p := &a
									if t != role {
										p = &b
									}
									if len(*p) == 0 {
										continue
									}
									o := (*p)[0]
									*p = (*p)[1:]
									switch o.T {
									case 'p', 'P', 'F':
										o.T = 'C'
									case 'R':
										continue
									}
									if t == 1 {
										o.T |= twinOp
									}
									done = append(done, o)
									x.Apply(o)
									atomic.AddInt64(&s.Transitions, 1)
								}
								if len(a) == len(b) {
									pairCheck(x, nil)
								}
							}
							settle("origin", x, keys)
							settle("clone", x.twin, keys)
							settle("origin again", x, keys)
						}); msg != "" {
							failf("%s\n after history: %s", msg, histStr(done))
						}
					}
				}
			}
		})
	})
}

func runC09(c *Ctx) {
	sym := Cfg{Kind: "sym", Arity: a256}
	twins := func(s *SUT, h []Op) {
		x := *s
		x.ts, x.vs, x.content, x.committed, x.persisted = s.ts.Copy(), s.vs.Copy(), cp(s.content), cp(s.committed), cp(s.persisted)
		x.tr = s.tr.Clone()
		x.Apply(Op{T: 'T'})
		ks := keysOfHist(h)[:4]
		x.Apply(Op{'D', ks[0], ""})
		x.twin.Apply(Op{'U', ks[0], "7"})
		x.twin.Apply(Op{'D', ks[1], ""})
		settle("origin", &x, ks)
		settle("clone", x.twin, ks)
		x.Apply(Op{'U', ks[1], "8"})
		settle("origin again", &x, ks)
		settle("clone again", x.twin, ks)
	}
	c.Pumps([]Cfg{b2b(a256, h160), b2b(a16, h256)}, twins, false)
	c.Large([]Cfg{b2b(a256, h160)}, []int{300, 1100, c.pick(5000, 65600)}, twins)
	c.Deep([]Cfg{b2b(a256, h160)}, []int{70, 140, 270, c.pick(400, 1100)}, twins)
	c.Deep([]Cfg{b2b(a2, h160)}, []int{70, c.pick(140, 400)}, twins)
	k2 := map[string][]string{"chain": {"a", "ab"}, "fork": {"ab", "ac"}, "root": {"", "b"}, "split": {"abc", "aX"}}
	for _, n := range sortedNames(k2) {
		c.pairMachine(b2b(a256, h160), n, k2[n], []string{"1"}, "CX", "CX", 0, 0)
	}
	if !c.quick() {
		c.pairMachine(sym, "fork", k2["fork"], []string{"1", "2"}, "C", "C", 0, 0)
	} else {
		c.pairMachine(sym, "fork", k2["fork"], []string{"1", "2"}, "C", "C", 6, 0)
	}
	c.pairMachine(b2b(a16, h256), "chain", k2["chain"], []string{"1"}, "CPX", "C", 0, 0)
	c.pairMachine(b2b(a2, h160).thr(5), "fork", k2["fork"], []string{"1"}, "CPX", "C", 0, 0)
	c.pairMachine(b2b(a16, h160).opt(), "fork", k2["fork"], []string{"1"}, "CPK", "CK", c.pick(6, 7), 0)
	c.pairMachine(cfgKZG, "fork", k2["fork"], []string{"1"}, "CP", "C", c.pick(3, 6), 0)
	for _, n := range sortedNames(universes3) {
		if c.quick() && n != "fork" && n != "chain" && n != "split" && n != "nib2" && n != "long" {
			continue
		}
		c.pairMachine(b2b(a16, h160), n, universes3[n], []string{"1"}, "CPX", "CX", c.pick(5, 7), 0)
		c.pairMachine(b2b(a256, h256), n, universes3[n], []string{"1", "2"}, "CP", "C", c.pick(4, 6), 0)
	}
	for _, cfg := range []Cfg{b2b(a256, h160), b2b(a16, h256).thr(25), b2b(a2, h160)} {
		n, f := sweepKeyLens([]int{1, 2, 3, 20, 21, 32, 33, 34, 64, 255, 256})
		c.pairScripts(cfg, "key lengths", n, f)
		n, f = sweepValLens([]int{1, 19, 20, 21, 24, 25, 26, 31, 32, 33, 64, 300})
		c.pairScripts(cfg, "value lengths", n, f)
		n, f = sweepFan([]int{2, 3, 8, 9})
		c.pairScripts(cfg, "fan-out", n, f)
		n, f = sweepDepth([]int{2, 3, 5, 8})
		c.pairScripts(cfg, "chain depth", n, f)
	}
	if !c.quick() {
		n, f := sweepDepth([]int{3, 5})
		c.pairScripts(cfgKZG, "chain depth", n, f)
	}
}
