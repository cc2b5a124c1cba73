package main

import (
	"fmt"

	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C03", "model_checking", runC03)
	register("C04", "model_checking", runC04)
	register("C20", "model_checking", runC20)
}

// aspectReopen: whatever the state of the trie in memory, new readers and tries over the store show exactly the state
// last persisted, and the trie which wrote it shows the same as a fresh trie with the content
func aspectReopen(keys []string) Aspect {
	return func(s *SUT, h []Op) {
		exp := expectedView(s.cfg, s.persisted, keys)
		eqStore(s, s.persisted, "store")
		frozen := s.ts.frozen
		s.ts.frozen, s.vs.frozen = true, true
		defer func() { s.ts.frozen, s.vs.frozen = frozen, frozen }()
		diffViews("reader over the store, content "+mapStr(s.persisted), sutView(s.reader(), s.cfg, keys, s.persisted), exp)
		diffViews("trie opened over the store, content "+mapStr(s.persisted), sutView(newTrie(s.cfg, s.m, s.ts, s.vs), s.cfg, keys, s.persisted), exp)
		if !s.dirty {
			diffViews("trie, content "+mapStr(s.content), sutView(s.tr.Clone(), s.cfg, keys, s.content), expectedView(s.cfg, s.content, keys))
		}
	}
}

// aspectReopenH uses the keys of the history
func aspectReopenH(s *SUT, h []Op) {
	ks := keysOfHist(h)
	if len(ks) > 12 {
		ks = append(append([]string{}, ks[:6]...), ks[len(ks)-6:]...)
	}
	aspectReopen(ks)(s, h)
}

func runC03(c *Ctx) {
	sym := Cfg{Kind: "sym", Arity: a256}
	c.Pumps([]Cfg{b2b(a256, h160), b2b(a16, h256).thr(3)}, aspectReopenH, false)
	c.Large([]Cfg{b2b(a256, h160), b2b(a16, h160).thr(1)}, []int{300, 1100, c.pick(5000, 65600)}, aspectReopenH)
	c.Deep([]Cfg{b2b(a256, h160)}, []int{70, 140, 270, c.pick(400, 1100)}, aspectReopenH)
	c.Deep([]Cfg{b2b(a2, h160)}, []int{70, c.pick(140, 400)}, aspectReopenH)
	for _, un := range []string{"bits", "chain", "chain2", "fork", "split", "split2", "zeros"} {
		a := aspectReopen(universes3[un])
		c.Closures([]Cfg{b2b(a256, h160)}, pickUni(un), []string{"1"}, "CFXR", nil, a, 0, 0)
	}
	for _, un := range []string{"chain", "fork", "split", "nib2"} {
		a := aspectReopen(universes3[un])
		c.Closures([]Cfg{b2b(a16, h256), b2b(a2, h160), b2b(a16, h160).opt().thr(2), sym}, pickUni(un), []string{"1"}, "CFXR", nil, a, 0, 0)
	}
	two := map[string][]string{"2keys": {"ab", "ac"}}
	c.Closures([]Cfg{b2b(a256, h160).thr(5), b2b(a2, h256).thr(5).opt()}, two, []string{"1", pat(40, 1)}, "CFXRK", nil, aspectReopen(two["2keys"]), 0, 0)
	kz := universes3["fork"]
	c.Closures([]Cfg{cfgKZG}, pickUni("fork"), []string{"1"}, "CFX", nil, aspectReopen(kz[:2]), int64(c.pick(150, 6000)), 0)
	for _, un := range sortedNames(universes6) {
		for _, cfg := range []Cfg{sym, b2b(a16, h160), b2b(a256, h256).thr(20), b2b(a2, h160)} {
			a := aspectReopen(universes6[un])
			c.Phases(cfg, un, universes6[un], []string{"1"}, c.pick(1, 2), "RCP", a)
			c.continuations(cfg, un, universes6[un], c.pick(2, 3))
		}
	}
	c.continuations(cfgKZG, "mix", universes6["mix"][:4], c.pick(1, 2))
	for _, un := range sortedNames(universes6) {
		for _, cfg := range []Cfg{b2b(a256, h160), b2b(a16, h256).thr(5), b2b(a2, h160)} {
			c.keptReaders(cfg, un, universes6[un][:4], c.pick(2, 3))
		}
	}
	c.keptReaders(cfgKZG, "mix", universes6["mix"][:3], 1)
	c.AllSweeps([]Cfg{b2b(a256, h160), b2b(a16, h256), b2b(a2, h160).thr(25), b2b(a256, h256).thr(33).opt()}, aspectReopenH, "SkvVfd")
	c.Bulk([]Cfg{b2b(a256, h160), b2b(a16, h256).thr(3), b2b(a2, h160).opt()}, aspectReopenH)
	if !c.quick() {
		for _, un := range []string{"chain", "fork", "split", "zeros"} {
			a := aspectReopen(universes3[un])
			c.Closures([]Cfg{b2b(a256, h256), sym}, pickUni(un), []string{"1", "2"}, "CFXR", nil, a, 0, 0)
		}
		c.AllSweeps([]Cfg{b2b(a256, h256), b2b(a16, h160).thr(20), b2b(a2, h256), b2b(a16, h160).opt()}, aspectReopenH, "SkvVfd")
	}
}

// keptReaders: a reader opened once shows what the store holds now, whatever was read through it before
func (c *Ctx) keptReaders(cfg Cfg, name string, keys []string, length int) {
	s, end := c.Begin(fmt.Sprintf("kept readers %s %s length=%d", name, cfg, length),
		fmt.Sprintf("all subsets of %d keys x all sequences of %d mutations, each persisted; everything read through readers opened before the first and after the first persist, after every persist", len(keys), length))
	defer end()
	ops := opsFor(keys, []string{"1", pat(40, 1)}, "")
	s.MaxDepth = length
	n := 1
	for i := 0; i < length; i++ {
		n *= len(ops)
	}
	c.Par(1<<uint(len(keys)), func(sub int) {
		var pre []Op
		for i, k := range keys {
			if sub&(1<<uint(i)) != 0 {
				pre = append(pre, Op{'U', k, "0"})
			}
		}
		pre = append(pre, Op{T: 'P'})
		for q := 0; q < n; q++ {
			h := append([]Op{}, pre...)
			for x, i := q, 0; i < length; i++ {
				h = append(h, ops[x%len(ops)], Op{T: 'P'})
				x /= len(ops)
			}
			if c.Done() || !c.Case(s, histStr(h), func() {
				x := NewSUT(cfg)
				rds := []*trie.TrieReader{x.reader()}
				for _, o := range h {
					if x.Apply(o); o.T != 'P' {
						continue
					}
					if len(rds) == 1 {
						sutView(rds[0], cfg, keys, x.persisted)
						rds = append(rds, x.reader())
					}
					for i, r := range rds {
						what := fmt.Sprintf("reader %d of %d, opened before, content %s", i+1, len(rds), mapStr(x.persisted))
						diffViews(what, sutView(r, cfg, keys, x.persisted), expectedView(cfg, x.persisted, keys))
					}
				}
			}) {
				return
			}
			s.Transitions += int64(len(h))
		}
	})
}

// continuations: from every persisted content, every sequence of mutations is applied to the trie that kept its
// cache, to the one with its cache cleared, to the reopened one and to clones of them, in step; everything observable
// is compared after each commit, and so are the records which are persisted in the end
func (c *Ctx) continuations(cfg Cfg, name string, keys []string, length int) {
	s, end := c.Begin(fmt.Sprintf("continuations %s %s length=%d", name, cfg, length),
		fmt.Sprintf("all subsets of %d keys x all sequences of %d mutations x commit after each or at the end, 4 continuations in step", len(keys), length))
	defer end()
	ops := opsFor(keys, []string{"1"}, "")
	s.MaxDepth = length
	n := 1
	for i := 0; i < length; i++ {
		n *= len(ops)
	}
	c.Par(1<<uint(len(keys)), func(sub int) {
		var pre []Op
		for i, k := range keys {
			if sub&(1<<uint(i)) != 0 {
				pre = append(pre, Op{'U', k, "0"})
			}
		}
		for q := 0; q < n; q++ {
			var seq []Op
			for x, i := q, 0; i < length; i++ {
				seq = append(seq, ops[x%len(ops)])
				x /= len(ops)
			}
			for each := 0; each < 2; each++ {
				if c.Done() {
					return
				}
				if !c.Case(s, fmt.Sprintf("%s | %s commit each=%d", histStr(pre), histStr(seq), each), func() {
					x := NewSUT(cfg)
					for _, o := range pre {
						x.Apply(o)
					}
					x.Apply(Op{T: 'P'})
					// four continuations, each over its own copy of the stores
					var xs []*SUT
					for i := 0; i < 4; i++ {
						y := &SUT{cfg: cfg, m: x.m, ts: x.ts.Copy(), vs: x.vs.Copy(), content: cp(x.content), committed: cp(x.committed), persisted: cp(x.persisted)}
						switch i {
						case 0: // keeps the cache: the history is repeated on its own store
							y = NewSUT(cfg)
							for _, o := range pre {
								y.Apply(o)
							}
							y.Apply(Op{T: 'P'})
						case 1:
							y.reopen()
						case 2:
							y = NewSUT(cfg)
							for _, o := range pre {
								y.Apply(o)
							}
							y.Apply(Op{T: 'P'})
							y.Apply(Op{T: 'X'})
						case 3:
							y.reopen()
							y.tr = y.tr.Clone()
						}
						xs = append(xs, y)
					}
					names := []string{"kept cache", "reopened", "cleared cache", "clone"}
					cmp := func() {
						exp := expectFor(cfg, xs[0].content)
						for i, y := range xs {
							if string(rootOf(y.tr)) != string(exp.root) {
								failf("%s: content %s: root %s, expected %s", names[i], mapStr(y.content), hx(rootOf(y.tr)), hx(exp.root))
							}
						}
					}
					for _, o := range seq {
						for _, y := range xs {
							y.Apply(o)
							if each == 1 {
								y.Apply(Op{T: 'C'})
							}
						}
						if each == 1 {
							cmp()
						}
					}
					for _, y := range xs {
						y.Apply(Op{T: 'P'})
					}
					cmp()
					for i, y := range xs {
						eqStore(y, y.content, names[i])
					}
				}) {
					return
				}
				s.Transitions += int64(4 * (length + 1))
			}
		}
	})
}

// ---- C04

func aspectCanonical(s *SUT, h []Op) {
	checkStore(s.ts, s.persisted, s.cfg)
	if len(s.persisted) == 0 && len(s.ts.m) != 0 {
		failf("the store of the empty content is not empty")
	}
	checkStructure(s.reader(), s.persisted, s.cfg)
	if !s.dirty {
		checkStructure(s.tr.Clone(), s.content, s.cfg)
	}
}

func runC04(c *Ctx) {
	sym := Cfg{Kind: "sym", Arity: a256}
	c.Pumps([]Cfg{b2b(a256, h160), b2b(a16, h256), b2b(a2, h160), sym}, aspectCanonical, true)
	c.Large([]Cfg{b2b(a256, h160), b2b(a2, h160)}, []int{300, 1100, 5000, 65600}, aspectCanonical)
	c.Deep([]Cfg{b2b(a256, h160), b2b(a2, h160)}, []int{70, 140, 270, c.pick(400, 1100)}, aspectCanonical)
	c.Closures([]Cfg{b2b(a256, h160)}, universes3, []string{"1"}, "CFXR", nil, aspectCanonical, 0, 0)
	c.Closures([]Cfg{b2b(a16, h256), b2b(a2, h160), b2b(a16, h160).opt().thr(2), sym}, pickUni("chain", "fork", "split", "nib2", "bits"), []string{"1"}, "CFXR", nil, aspectCanonical, 0, 0)
	c.Closures([]Cfg{b2b(a256, h160).thr(5), b2b(a2, h256).opt()}, map[string][]string{"2keys": {"ab", "ac"}, "2chain": {"", "a"}}, []string{"1", pat(40, 1)}, "CFXREK", nil, aspectCanonical, 0, 0)
	c.Closures([]Cfg{cfgKZG}, pickUni("fork", "split2"), []string{"1"}, "CFX", nil, aspectCanonical, int64(c.pick(150, 6000)), 0)
	for _, un := range sortedNames(universes6) {
		for _, cfg := range []Cfg{sym, b2b(a16, h160), b2b(a256, h256), b2b(a2, h160)} {
			c.Phases(cfg, un, universes6[un], []string{"1"}, c.pick(2, 3), "RCP", aspectCanonical)
		}
	}
	c.Phases(sym, "mix", universes6["mix"], []string{"1"}, 3, "R", aspectCanonical)
	c.Phases(cfgKZG, "mix", universes6["mix"][:4], []string{"1"}, c.pick(1, 2), "RC", aspectCanonical)
	c.AllSweeps([]Cfg{b2b(a256, h160), b2b(a16, h256), b2b(a2, h160)}, aspectCanonical, "Skvfd")
	c.dense("dense", []Cfg{b2b(a256, h160), b2b(a16, h160), b2b(a2, h256)}, aspectCanonical)
	c.Bulk([]Cfg{b2b(a256, h160), b2b(a16, h256).opt(), b2b(a2, h160).thr(3), cfgKZG}, aspectCanonical)
	if !c.quick() {
		c.Closures([]Cfg{b2b(a256, h256), sym}, pickUni("chain", "fork", "split", "zeros"), []string{"1", "2"}, "CFXR", nil, aspectCanonical, 0, 0)
		c.AllSweeps([]Cfg{b2b(a256, h256), b2b(a16, h160).thr(20), b2b(a2, h256), b2b(a16, h160).opt()}, aspectCanonical, "skvfd")
		c.AllSweeps([]Cfg{cfgKZG}, aspectCanonical, "df")
	}
}

// ---- C20: clearing the cache

// aspectClear: in every reachable state (dirty, committed, persisted, with reads), a clear of the cache leads to the
// state of a newly opened trie, now and after any one further operation and persist
func aspectClear(keys []string) Aspect {
	return func(s *SUT, h []Op) {
		w := s.ts.writes
		store := cp(s.ts.m)
		tr := s.tr
		tr.ClearCache()
		if s.ts.writes != w || !eqMap(store, s.ts.m) {
			failf("ClearCache wrote to the store")
		}
		exp := expectedView(s.cfg, s.persisted, keys)
		// nothing left behind: persisting now writes nothing to the store
		ts2 := s.ts.Copy()
		w2 := ts2.writes
		tr.PersistMutations(ts2)
		if !eqMap(ts2.m, store) || ts2.writes != w2 {
			failf("after ClearCache something of the discarded changes is persisted: %s, store was %s", mapStr(ts2.m), mapStr(store))
		}
		diffViews("cleared trie, content "+mapStr(s.persisted), sutView(tr, s.cfg, keys, s.persisted), exp)
		tr.Commit()
		ts2 = s.ts.Copy()
		tr.PersistMutations(ts2)
		if !eqMap(ts2.m, store) {
			failf("after ClearCache, reads and Commit something else is persisted: %s, store was %s", mapStr(ts2.m), mapStr(store))
		}
		diffViews("cleared trie after commit, content "+mapStr(s.persisted), sutView(tr, s.cfg, keys, s.persisted), exp)
		// further behaviour
		tr.ClearCache()
		for _, k := range keys {
			y := &SUT{cfg: s.cfg, m: s.m, ts: s.ts.Copy(), vs: s.vs.Copy(), content: cp(s.persisted), committed: cp(s.persisted), persisted: cp(s.persisted)}
			y.tr = s.tr
			v := "9"
			if s.cfg.Thr > 0 {
				y.tr = newTrie(s.cfg, s.m, y.ts, y.vs) // the trie reads its own value store
				continue
			}
			if _, ok := y.content[k]; ok {
				y.Apply(Op{'D', k, ""})
			} else {
				y.Apply(Op{'U', k, v})
			}
			y.Apply(Op{T: 'P'})
			eqStore(y, y.content, "operation on "+q(k)+" after ClearCache")
			tr.ClearCache()
		}
	}
}

func runC20(c *Ctx) {
	sym := Cfg{Kind: "sym", Arity: a256}
	clear := func(s *SUT, h []Op) {
		keep := s.tr.Clone()
		ks := keysOfHist(h)
		aspectClear(ks[:4])(s, h)
		s.tr = keep
	}
	c.Pumps([]Cfg{b2b(a256, h160), b2b(a16, h256)}, clear, false)
	c.Large([]Cfg{b2b(a256, h160)}, []int{300, 1100, c.pick(5000, 65600)}, clear)
	c.Deep([]Cfg{b2b(a256, h160)}, []int{70, 140, 270, c.pick(400, 1100)}, clear)
	c.Deep([]Cfg{b2b(a2, h160)}, []int{70, c.pick(140, 400)}, clear)
	for _, un := range sortedNames(universes3) {
		c.Closures([]Cfg{b2b(a256, h160)}, pickUni(un), []string{"1"}, "CFXR", nil, aspectClear(universes3[un]), 0, 0)
	}
	for _, un := range []string{"chain", "fork", "split", "nib2", "bits"} {
		c.Closures([]Cfg{b2b(a16, h256), b2b(a2, h160), sym}, pickUni(un), []string{"1"}, "CFXR", nil, aspectClear(universes3[un]), 0, 0)
	}
	two := map[string][]string{"2keys": {"ab", "ac"}}
	c.Closures([]Cfg{b2b(a256, h160).thr(5), b2b(a2, h256).thr(5).opt()}, two, []string{"1", pat(40, 1)}, "CFXRK", nil, aspectClear(two["2keys"]), 0, 0)
	c.Closures([]Cfg{cfgKZG}, pickUni("fork"), []string{"1"}, "CFX", nil, aspectClear(universes3["fork"][:2]), int64(c.pick(100, 6000)), 0)
	// every content, every mutation sequence (not committed, committed, committed and read), clear, then everything
	// observable
	for _, un := range sortedNames(universes6) {
		for _, cfg := range []Cfg{sym, b2b(a16, h160), b2b(a256, h256), b2b(a2, h160)} {
			c.clearPhases(cfg, un, universes6[un], c.pick(2, 3))
		}
	}
	c.clearPhases(cfgKZG, "mix", universes6["mix"][:4], 1)
	for _, un := range sortedNames(universes6) {
		for _, cfg := range []Cfg{b2b(a256, h160), b2b(a16, h256), b2b(a2, h160), b2b(a256, h256).thr(5)} {
			c.clearForeign(cfg, un, universes6[un][:4], 2)
		}
	}
	c.clearForeign(cfgKZG, "mix", universes6["mix"][:c.pick(2, 3)], 1)
	if !c.quick() {
		for _, un := range []string{"chain", "fork", "split", "zeros"} {
			c.Closures([]Cfg{b2b(a256, h256), sym}, pickUni(un), []string{"1", "2"}, "CFXR", nil, aspectClear(universes3[un]), 0, 0)
		}
	}
}

// clearForeign: two tries over one store in turns. The trie which clears its cache has to be as a trie newly opened
// over what the other one has written in the meantime, whatever it has read and changed before
func (c *Ctx) clearForeign(cfg Cfg, name string, keys []string, length int) {
	s, end := c.Begin(fmt.Sprintf("store changed by another trie %s %s length=%d", name, cfg, length),
		fmt.Sprintf("all subsets of %d keys x 6 things done before by the trie x all sequences of %d mutations persisted through another trie over the store; then ClearCache, every read, every single following mutation persisted, and the same for the other trie", len(keys), length))
	defer end()
	ops := opsFor(keys, []string{"1", pat(40, 1)}, "")
	s.MaxDepth = length
	n := 1
	for i := 0; i < length; i++ {
		n *= len(ops)
	}
	const befores = 6
	c.Par(befores<<uint(len(keys)), func(sub int) {
		before := sub % befores
		var pre []Op
		for i, k := range keys {
			if sub/befores&(1<<uint(i)) != 0 {
				pre = append(pre, Op{'U', k, "0"})
			}
		}
		pre = append(pre, Op{T: 'P'})
		all := readOps(keys, readsAllStr)
		for q := 0; q < n; q++ {
			mut := ops[(q*5+sub)%len(ops)]
			var mine, others []Op
			switch before {
			case 1:
				mine = append(mine, all...)
			case 2:
				mine = append(mine, mut)
			case 3:
				mine = append(append(mine, mut, Op{T: 'C'}), all...)
			case 4:
				mine = append(append(mine, Op{T: 'X'}), all...)
			case 5:
				mine = append(append(mine, all...), mut, Op{T: 'P'})
			}
			for x, i := q, 0; i < length; i++ {
				others = append(others, ops[x%len(ops)])
				x /= len(ops)
			}
			others = append(others, Op{T: 'P'})
			last := ops[(q*7+sub)%len(ops)]
			if c.Done() || !c.Case(s, histStr(pre)+" | "+histStr(mine)+" | other trie: "+histStr(others)+" | clear "+last.String(), func() {
				a := NewSUT(cfg)
				for _, o := range pre {
					a.Apply(o)
				}
				for _, o := range mine {
					a.Apply(o)
				}
				// the other trie, over the same stores
				b := &SUT{cfg: a.cfg, m: a.m, ts: a.ts, vs: a.vs, content: cp(a.persisted), committed: cp(a.persisted), persisted: cp(a.persisted)}
				b.reopen()
				for _, o := range others {
					b.Apply(o)
				}
				sees := func(x *SUT, content map[string]string, what string) {
					x.tr.ClearCache()
					x.content, x.committed, x.persisted, x.dirty = cp(content), cp(content), cp(content), false
					checkStructure(x.tr, content, cfg)
					diffViews(what+", content "+mapStr(content), sutView(x.tr, cfg, keys, content), expectedView(cfg, content, keys))
				}
				sees(a, b.content, "cleared after another trie has changed the store")
				a.Apply(last)
				a.Apply(Op{T: 'P'})
				eqStore(a, a.content, "clearing, after another trie has changed the store, and one more operation")
				sees(b, a.content, "the other trie, cleared")
				b.Apply(mut)
				b.Apply(Op{T: 'P'})
				eqStore(b, b.content, "clearing the other trie, and one more operation")
			}) {
				return
			}
			s.Transitions += int64(len(pre) + len(mine) + len(others) + 4)
		}
	})
}

func (c *Ctx) clearPhases(cfg Cfg, name string, keys []string, length int) {
	s, end := c.Begin(fmt.Sprintf("discard %s %s length=%d", name, cfg, length),
		fmt.Sprintf("all subsets of %d keys x cache kept/reopened x all sequences of %d mutations x 3 ways to discard x every single following mutation", len(keys), length))
	defer end()
	ops := opsFor(keys, []string{"1"}, "")
	s.MaxDepth = length
	n := 1
	for i := 0; i < length; i++ {
		n *= len(ops)
	}
	c.Par(2<<uint(len(keys)), func(sub int) {
		var pre []Op
		for i, k := range keys {
			if sub/2&(1<<uint(i)) != 0 {
				pre = append(pre, Op{'U', k, "0"})
			}
		}
		pre = append(pre, Op{T: 'P'})
		if sub%2 == 1 {
			pre = append(pre, Op{T: 'R'})
		}
		for q := 0; q < n; q++ {
			h := append([]Op{}, pre...)
			for x, i := q, 0; i < length; i++ {
				h = append(h, ops[x%len(ops)])
				x /= len(ops)
			}
			way := (q + q/len(ops)) % 3
			if way > 0 {
				h = append(h, Op{T: 'C'})
			}
			if way == 2 {
				h = append(h, Op{'g', keys[q%len(keys)], ""})
			}
			h = append(h, Op{T: 'X'}, ops[(q*7+sub)%len(ops)], Op{T: 'P'})
			if c.Done() || !c.Case(s, histStr(h), func() {
				x := NewSUT(cfg)
				for i, o := range h {
					x.Apply(o)
					if i == len(h)-3 {
						e := expectFor(cfg, x.content)
						if string(rootOf(x.tr)) != string(e.root) {
							failf("after ClearCache the root is %s, expected %s of the persisted content %s", hx(rootOf(x.tr)), hx(e.root), mapStr(x.content))
						}
						checkStructure(x.tr, x.content, cfg)
						x.tr.ClearCache()
					}
				}
				aspectRoot(x, h)
				eqStore(x, x.content, "after discarding and one more operation")
			}) {
				return
			}
			s.Transitions += int64(len(h))
		}
	})
}
