package main

import (
	"bytes"
	"fmt"
	"sync/atomic"
)

func init() {
	register("C01", "model_checking", runC01)
}

func opsFor(keys, vals []string, extra string) []Op {
	var ops []Op
	for _, k := range keys {
		for _, v := range vals {
			ops = append(ops, Op{'U', k, v})
		}
	}
	for _, k := range keys {
		ops = append(ops, Op{'D', k, ""})
	}
	for i := 0; i < len(extra); i++ {
		switch extra[i] {
		case 'g', 'E', 'I':
			for _, k := range keys {
				ops = append(ops, Op{extra[i], k, ""})
			}
		case 'K': // value equal to the key
			for _, k := range keys {
				if k != "" {
					ops = append(ops, Op{'U', k, k})
				}
			}
		default:
			ops = append(ops, Op{extra[i], "", ""})
		}
	}
	return ops
}

// aspectRoot: the committed root is the commitment of the canonical tree of the content
func aspectRoot(s *SUT, h []Op) {
	if s.dirty {
		return
	}
	e := expectFor(s.cfg, s.content)
	if r := rootOf(s.tr); !bytes.Equal(r, e.root) {
		failf("content %s: root is %s, expected %s", mapStr(s.content), hx(r), hx(e.root))
	}
	if len(s.content) == 0 && rootOf(s.tr) != nil {
		failf("root commitment of the empty content is not nil")
	}
}

// permutations calls f with every permutation of 0..n-1
func permutations(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

func runC01(c *Ctx) {
	sym := Cfg{Kind: "sym", Arity: a256}
	c.Pumps([]Cfg{b2b(a256, h160), b2b(a16, h256), b2b(a2, h160), {Kind: "sym", Arity: a256}}, aspectRoot, true)
	c.Large([]Cfg{b2b(a256, h160), b2b(a16, h256)}, []int{300, 1100, 5000, 65600}, aspectRoot)
	c.Deep([]Cfg{b2b(a256, h160), b2b(a2, h160)}, []int{70, 140, 270, c.pick(400, 1100)}, aspectRoot)
	// every insertion order of every content, all in one commit, or a commit after each, or alternating values
	for _, cfg := range append(allB2B(), sym, cfgKZG, b2b(a16, h256).opt(), b2b(a256, h160).thr(3), b2b(a2, h160).thr(3).opt()) {
		cfg := cfg
		for _, un := range sortedNames(universes6) {
			keys := universes6[un]
			if cfg.Kind == "kzg" && c.quick() {
				keys = keys[:4]
			}
			s, end := c.Begin(fmt.Sprintf("insertion orders %s %s", un, cfg), "all permutations of the keys x 3 commit patterns")
			var perms [][]int
			permutations(len(keys), func(p []int) { perms = append(perms, append([]int{}, p...)) })
			c.Par(len(perms), func(i int) {
				for pat := 0; pat < 3; pat++ {
					var h []Op
					for n, j := range perms[i] {
						v := "v" + keys[j]
						switch pat {
						case 1:
							h = append(h, Op{T: 'C'})
						case 2:
							if n%2 == 1 {
								h = append(h, Op{'U', keys[j], "other"}, Op{T: 'F' - 'F' + 'P'})
							}
						}
						h = append(h, Op{'U', keys[j], v})
					}
					h = append(h, Op{T: 'C'})
					c.Case(s, histStr(h), func() {
						x := NewSUT(cfg)
						for _, o := range h {
							x.Apply(o)
							aspectRoot(x, h)
						}
					})
				}
			})
			s.Transitions = s.Cases * int64(len(keys)+1)
			end()
		}
	}
	// complete closures
	c.Closures([]Cfg{b2b(a256, h160)}, universes3, []string{"1"}, "CFXR", aspectRoot, nil, 0, 0)
	c.Closures([]Cfg{b2b(a16, h256), b2b(a2, h160), b2b(a16, h160).opt().thr(2)}, pickUni("chain", "fork", "split", "nib2", "bits"), []string{"1"}, "CFXR", aspectRoot, nil, 0, 0)
	c.Closures([]Cfg{b2b(a256, h256)}, map[string][]string{"2keys": {"ab", "ac"}, "2chain": {"", "a"}}, []string{"1", "2"}, "CFXREL", aspectRoot, nil, 0, 0)
	c.Closures([]Cfg{cfgKZG}, pickUni("fork", "split2"), []string{"1"}, "CFX", aspectRoot, nil, int64(c.pick(3000, 30000)), 0)
	// all contents x all mutation sequences
	for _, un := range sortedNames(universes6) {
		for _, cfg := range []Cfg{sym, b2b(a16, h160), b2b(a256, h256), b2b(a2, h160)} {
			c.Phases(cfg, un, universes6[un], []string{"1"}, c.pick(2, 3), "RC", aspectRoot)
		}
	}
	c.Phases(sym, "mix", universes6["mix"], []string{"1"}, 3, "RC", aspectRoot)
	c.Phases(cfgKZG, "mix", universes6["mix"][:5], []string{"1"}, c.pick(1, 2), "RC", aspectRoot)
	// sweeps
	c.AllSweeps([]Cfg{b2b(a256, h160), b2b(a16, h256), b2b(a2, h160)}, aspectRoot, "skvfd")
	c.AllSweeps([]Cfg{cfgKZG}, aspectRoot, "d")
	if !c.quick() {
		c.Closures([]Cfg{sym, b2b(a16, h160).opt().thr(2)}, pickUni("chain", "fork", "split", "nib2"), []string{"1", "2"}, "CFXR", aspectRoot, nil, 0, 0)
		c.Closures([]Cfg{b2b(a256, h256), b2b(a2, h256), b2b(a16, h160)}, pickUni("fork", "split2", "zeros"), []string{"1"}, "CFXREL", aspectRoot, nil, 0, 0)
		c.AllSweeps([]Cfg{b2b(a256, h256), b2b(a16, h160), b2b(a2, h256), b2b(a16, h160).thr(20), b2b(a16, h256).opt()}, aspectRoot, "Skvfd")
		c.Closures([]Cfg{sym, b2b(a256, h160)}, map[string][]string{"4split": {"abc", "abd", "aX", "b"}, "4mix": {"", "a", "ab", "ac"}}, []string{"1"}, "CFXR", aspectRoot, nil, 0, 0)
	}
	c.Bulk([]Cfg{b2b(a256, h160), b2b(a16, h256), b2b(a2, h160), b2b(a256, h256).opt().thr(1)}, aspectRoot)
	c.Bulk([]Cfg{cfgKZG}, aspectRoot)
	c.strVariants()
	// large tries: every pattern of key lengths up to 2 over 5 symbols in one trie, incrementally
	c.dense("dense", []Cfg{b2b(a256, h160), b2b(a16, h160), b2b(a2, h256)}, aspectRoot)
}

// strVariants: UpdateStr and DeleteStr with every combination of types of arguments in all histories of 3 mutations
func (c *Ctx) strVariants() {
	keys := []interface{}{nil, "", []byte(nil), []byte{}, "a", []byte("a"), "ab", []byte("ab"), "b"}
	vals := []interface{}{nil, "", []byte(nil), []byte{}, "1", []byte("1"), "2"}
	str := func(x interface{}) string {
		switch x := x.(type) {
		case string:
			return x
		case []byte:
			return string(x)
		}
		return ""
	}
	type mut struct {
		k, v interface{}
		del  bool
	}
	var muts []mut
	for _, k := range keys {
		for _, v := range vals {
			muts = append(muts, mut{k, v, false})
		}
		muts = append(muts, mut{k, nil, true})
	}
	for _, cfg := range []Cfg{b2b(a256, h160), b2b(a16, h256).opt(), b2b(a2, h160), {Kind: "sym", Arity: a256}, cfgKZG} {
		cfg := cfg
		n := len(muts)
		s, end := c.Begin("string arguments "+cfg.String(), fmt.Sprintf("all pairs of %d calls of UpdateStr and DeleteStr, after each content of two keys", n))
		c.Par(n*n, func(i int) {
			for pre := 0; pre < 4; pre++ {
				if cfg.Kind == "kzg" && (i+pre)%c.pick(16, 2) != 0 {
					continue
				}
				c.Case(s, fmt.Sprintf("%d: %v %v", pre, muts[i/n], muts[i%n]), func() {
					x := NewSUT(cfg)
					for j, k := range []string{"a", "ab"} {
						if pre>>uint(j)&1 == 1 {
							x.Apply(Op{'U', k, "1"})
						}
					}
					x.Apply(Op{T: 'C'})
					for _, m := range []mut{muts[i/n], muts[i%n]} {
						k, v := str(m.k), str(m.v)
						if m.del {
							x.tr.DeleteStr(m.k)
						} else {
							x.tr.UpdateStr(m.k, m.v)
						}
						if v == "" {
							delete(x.content, k)
						} else {
							x.content[k] = v
						}
						x.dirty = true
						atomic.AddInt64(&s.Transitions, 1)
					}
					x.Apply(Op{T: 'C'})
					aspectRoot(x, nil)
				})
			}
		})
		end()
	}
}

// dense builds one trie with all keys up to length 3 over a few symbols, commits in blocks, then deletes in blocks in
// several orders
func (c *Ctx) dense(name string, cfgs []Cfg, a Aspect) {
	syms := []byte{0x00, 0x01, 0x0f, 0x10, 0xff}
	var keys []string
	keys = append(keys, "")
	for _, x := range syms {
		keys = append(keys, string([]byte{x}))
		for _, y := range syms {
			keys = append(keys, string([]byte{x, y}))
			for _, z := range syms {
				keys = append(keys, string([]byte{x, y, z}))
			}
		}
	}
	for _, cfg := range cfgs {
		cfg := cfg
		s, end := c.Begin(name+" "+cfg.String(), fmt.Sprintf("%d keys, strides coprime to the number of keys x block sizes", len(keys)))
		strides := []int{1, 5, 7, 11, 25, 31, 77, 155}
		blocks := []int{1, 7, 40}
		c.Par(len(strides)*len(blocks), func(i int) {
			st, bl := strides[i%len(strides)], blocks[i/len(strides)]
			c.Case(s, fmt.Sprintf("stride %d block %d", st, bl), func() {
				x := NewSUT(cfg)
				for phase := 0; phase < 2; phase++ {
					for j := range keys {
						k := keys[j*st%len(keys)]
						if phase == 0 {
							x.Apply(Op{'U', k, "v" + k})
						} else {
							x.Apply(Op{'D', k, ""})
						}
						if (j+1)%bl == 0 || j == len(keys)-1 {
							x.Apply(Op{T: 'C'})
							a(x, nil)
							switch j / bl % 3 {
							case 0:
								x.Apply(Op{T: 'F'})
								a(x, nil)
							case 1:
								x.Apply(Op{T: 'p'})
								x.Apply(Op{T: 'R'})
								a(x, nil)
							}
						}
					}
				}
				atomic.AddInt64(&s.Transitions, int64(2*len(keys)))
			})
		})
		end()
	}
}
