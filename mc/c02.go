package main

import (
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C02", "exploration", runC02)
}

// rootOfContent builds the trie with the real code and returns the root
func rootOfContent(cfg Cfg, m trie.CommitmentModel, content map[string]string) string {
	tr := newTrie(cfg, m, NewStore(), NewStore())
	for _, k := range sortedKeys(content) {
		tr.Update([]byte(k), []byte(content[k]))
	}
	tr.Commit()
	return string(rootOf(tr))
}

// rootOfChange builds the trie with the content from, commits, and changes it to the content to
func rootOfChange(cfg Cfg, m trie.CommitmentModel, from, to map[string]string) string {
	tr := newTrie(cfg, m, NewStore(), NewStore())
	for _, k := range sortedKeys(from) {
		tr.Update([]byte(k), []byte(from[k]))
	}
	tr.Commit()
	for _, k := range sortedKeys(to) {
		if from[k] != to[k] {
			tr.Update([]byte(k), []byte(to[k]))
		}
	}
	for _, k := range sortedKeys(from) {
		if _, ok := to[k]; !ok {
			tr.Delete([]byte(k))
		}
	}
	tr.Commit()
	return string(rootOf(tr))
}

// collector finds two different contents with equal roots
type collector struct {
	mu sync.Mutex
	m  map[string]string
}

func (cl *collector) add(root string, desc string) {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	if prev, ok := cl.m[root]; ok && prev != desc {
		failf("different contents have the same root %x: %s and %s", root, prev, desc)
	}
	cl.m[root] = desc
}

// DistinctRoots: all contents of the enumeration have pairwise different roots
func (c *Ctx) DistinctRoots(name, bound string, cfg Cfg, n int, content func(i int) map[string]string) {
	s, end := c.Begin("distinct roots "+name+" "+cfg.String(), fmt.Sprintf("%s: %d contents, all pairs compared", bound, n))
	defer end()
	m := cfg.NewModel()
	cl := &collector{m: map[string]string{}}
	c.Par(n, func(i int) {
		ct := content(i)
		if ct == nil {
			return
		}
		d := mapStr(ct)
		prev := content(int((int64(i)*7919 + 13) % int64(n)))
		c.Case(s, d, func() {
			cl.add(rootOfContent(cfg, m, ct), mapKey(ct))
			if prev != nil {
				cl.add(rootOfChange(cfg, m, prev, ct), mapKey(ct))
			}
			// the same content, one value at a time, in place
			for _, k := range sortedKeys(ct) {
				v := []byte(ct[k])
				v[len(v)-1] ^= 0x11
				if v[len(v)-1] == 0 {
					continue
				}
				p := cp(ct)
				p[k] = string(v)
				if string(v) == k && cfg.KeyOpt {
					continue
				}
				if a, b := rootOfChange(cfg, m, p, ct), rootOfContent(cfg, m, p); a == b {
					failf("changing the value of %s from %s to %s did not change the root", q(k), q(p[k]), q(ct[k]))
				}
				break
			}
		})
	})
	s.Transitions = s.Cases
	c.Outcome(fmt.Sprintf("%d different roots", len(cl.m)))
}

// assignments: every key absent or with one of the values
func assignments(keys, vals []string) (int, func(i int) map[string]string) {
	n := 1
	for range keys {
		n *= len(vals) + 1
	}
	return n, func(i int) map[string]string {
		r := map[string]string{}
		for _, k := range keys {
			if x := i % (len(vals) + 1); x > 0 {
				r[k] = vals[x-1]
			}
			i /= len(vals) + 1
		}
		return r
	}
}

func runC02(c *Ctx) {
	c.assume = append(c.assume, "collision resistance of blake2b and the binding property of KZG commitments", "the ambiguities of the commitment format listed in known_findings.json are replayed explicitly and are left out of the enumerated alphabets")
	cfgs := append(allB2B(), Cfg{Kind: "sym", Arity: a256}, b2b(a16, h160).thr(5), b2b(a256, h160).opt())
	c.manyData(b2b(a256, h160))
	c.manyData(b2b(a2, h256))
	for _, cfg := range cfgs {
		hs := int(cfg.HS)
		if hs == 0 {
			hs = 20
		}
		// all contents over 6 keys, values of all length classes
		vals := []string{"1", "2", pat(hs, 1), pat(hs+1, 1)}
		for _, un := range []string{"mix", "deep"} {
			n, f := assignments(universes6[un], vals)
			c.DistinctRoots("contents "+un, "all assignments of values to 6 keys", cfg, n, f)
		}
		// keys and values over the same alphabet: confusion of roles
		strs := []string{"a", "b", "aa", "ab", "ba", "bb", "aab"}
		var pairs [][2]string
		for _, k := range append([]string{""}, strs...) {
			for _, v := range strs {
				if cfg.KeyOpt && k == v {
					continue
				}
				pairs = append(pairs, [2]string{k, v})
			}
		}
		np := len(pairs)
		c.DistinctRoots("roles", "all contents of 1 and 2 pairs, keys and values from the same strings", cfg, np*np, func(i int) map[string]string {
			a, b := pairs[i/np], pairs[i%np]
			if a[0] > b[0] || a[0] == b[0] && a != b {
				return nil
			}
			return map[string]string{a[0]: a[1], b[0]: b[1]}
		})
		// two children of a node at every pair of indices
		step := 1
		c.DistinctRoots("children", "two children at all pairs of indices", cfg, 256*256/step, func(i int) map[string]string {
			i *= step
			x, y := i/256, i%256
			if x >= y {
				return nil
			}
			return map[string]string{"k" + string([]byte{byte(x)}): "v", "k" + string([]byte{byte(y)}) + "a": "v"}
		})
		// every single-bit change of every byte of a value or key of every length, and of the length by one
		lens := append(rng(1, 70, 1), 127, 128, 129, 255, 256, 257, 300)
		if !c.quick() {
			lens = append(rng(1, 300, 1), 511, 512, 513, 1000)
		}
		type chg struct{ l, pos, bit int }
		var chgs []chg
		for _, l := range lens {
			chgs = append(chgs, chg{l, -1, 0})
			for p := 0; p < l; p++ {
				if l > 70 && p > 40 && p < l-10 && p%16 != 0 {
					continue
				}
				for b := 0; b < 8; b++ {
					if c.quick() && l > 66 && b != (p+l)%8 && b != (p*3+l)%8 {
						continue
					}
					chgs = append(chgs, chg{l, p, b})
				}
			}
		}
		str := func(x chg) string {
			b := []byte(pat(x.l, 9))
			if x.pos >= 0 {
				b[x.pos] ^= 1 << uint(x.bit)
				if b[x.pos] == 0 {
					b[x.pos] = 0xFE
				}
			}
			return string(b)
		}
		c.DistinctRoots("value bytes", "values of every length, every byte changed", cfg, len(chgs), func(i int) map[string]string {
			return map[string]string{"a": "1", "ab": str(chgs[i]), "abc": "2"}
		})
		c.DistinctRoots("key bytes", "keys of every length, every byte changed, below a fork", cfg, len(chgs), func(i int) map[string]string {
			return map[string]string{"a": "1", "ab": "2", "ab" + str(chgs[i]): "3"}
		})
		c.DistinctRoots("inner fragment bytes", "path fragments of inner nodes of every length, every byte changed", cfg, len(chgs), func(i int) map[string]string {
			x := str(chgs[i])
			return map[string]string{x + "p": "1", x + "q": "2", "z": "3"}
		})
	}
	// symbols of keys beyond bytes: all keys of one and two bytes, one at a time and added to another
	for _, cfg := range allB2B() {
		c.DistinctRoots("short keys", "all keys of 1 byte and all keys of 2 bytes from 64 x 64 values, next to a fixed key", cfg, 256+64*64, func(i int) map[string]string {
			k := string([]byte{byte(i)})
			if i >= 256 {
				i -= 256
				k = string([]byte{byte(i/64*4 + 1), byte(i%64*4 + 3)})
			} else if i == 0 {
				return nil
			}
			return map[string]string{"\x55\x66\x77": "1", k: "2"}
		})
		c.slots(cfg)
		c.fragments(cfg)
		c.longData(cfg)
	}
	c.longData(cfgKZG)
	c.kzgFragments()
	n, f := assignments(universes6["mix"][:5], []string{"1", "2"})
	c.DistinctRoots("contents mix", "all assignments of values to 5 keys", cfgKZG, n, f)
	n, f = assignments([]string{"a", "ab", "abc", pat(40, 1)}, []string{"1", "a\x00", "a", pat(33, 1)})
	c.DistinctRoots("contents 2", "all assignments of values to 4 keys", cfgKZG, n, f)
	c.slots(cfgKZG)
	c.knownCollisions()
}

// slots: the node commitment depends on every slot of the node: the same material at another slot, one slot added,
// removed or changed gives another commitment
func (c *Ctx) slots(cfg Cfg) {
	s, end := c.Begin("node slots "+cfg.String(), "all nodes with one or two children at all indices, with or without terminal and fragment; every bit of every child commitment")
	defer end()
	m := cfg.NewModel()
	na := int(cfg.Arity) + 1
	child := func(i int) trie.VCommitment {
		return m.CalcNodeCommitment(&trie.NodeData{PathFragment: []byte{1}, Terminal: m.CommitToData([]byte(fmt.Sprintf("c%d", i)))})
	}
	c0, c1 := child(0), child(1)
	cl := &collector{m: map[string]string{}}
	step := 1
	if cfg.Kind == "kzg" {
		step = c.pick(16, 2)
	}
	frags := [][]byte{nil, {1}, {1, 1}}
	c.Par(na, func(i int) {
		c.Case(s, fmt.Sprintf("child index %d", i), func() {
			for j := 0; j < na; j += 1 {
				if step > 1 && j != i && (j+i)%step != 0 {
					continue
				}
				if cfg.Kind == "kzg" && (i%step != 0 || j%step != 0) {
					continue
				}
				for t := 0; t < 2; t++ {
					for fi, fr := range frags {
						if cfg.Kind == "kzg" && fi > 1 {
							continue
						}
						for swap := 0; swap < 2; swap++ {
							nd := trie.NewNodeData()
							nd.PathFragment = fr
							if t == 1 {
								nd.Terminal = m.CommitToData([]byte("t"))
							}
							a, b := c0, c1
							if swap == 1 {
								a, b = b, a
							}
							if i > j {
								continue
							}
							nd.ChildCommitments[byte(i)] = a
							if i != j {
								nd.ChildCommitments[byte(j)] = b
							}
							cl.add(string(commBytes(m.CalcNodeCommitment(nd))), fmt.Sprintf("i=%d j=%d t=%d f=%d swap=%d", i, j, t, fi, swap))
							atomic.AddInt64(&s.Transitions, 1)
						}
					}
				}
			}
		})
	})
	if cfg.Kind == "kzg" {
		return
	}
	// a child commitment as terminal or fragment, and every bit of a child commitment at the first and last index
	c.Case(s, "bits of child commitments", func() {
		raw := c0.Bytes()
		for _, idx := range []int{0, 1, na - 1} {
			for bit := -1; bit < len(raw)*8; bit++ {
				b := append([]byte{}, raw...)
				if bit >= 0 {
					b[bit/8] ^= 1 << uint(bit%8)
				}
				v := m.NewVectorCommitment()
				if err := readFrom(v, b); err != nil {
					failf("%v", err)
				}
				nd := trie.NewNodeData()
				nd.PathFragment = []byte{1, 0, 1}
				nd.ChildCommitments[byte(idx)] = v
				cl.add(string(commBytes(m.CalcNodeCommitment(nd))), fmt.Sprintf("bit %d of the child %d", bit, idx))
				atomic.AddInt64(&s.Transitions, 1)
			}
		}
		nd := trie.NewNodeData()
		nd.PathFragment = []byte{1, 0, 1}
		nd.Terminal = m.CommitToData(raw)
		cl.add(string(commBytes(m.CalcNodeCommitment(nd))), "child commitment as terminal")
	})
}

// fragments: the node commitment depends on every symbol of the path fragment and on its length
func (c *Ctx) fragments(cfg Cfg) {
	tail := c.pick(5, 7)
	s, end := c.Begin("path fragments "+cfg.String(), fmt.Sprintf("all tails of up to %d symbols from {0, 1, last} after a base of 0..hash size+4 symbols and multiples; not ending with 0 up to the hash size (known finding)", tail))
	defer end()
	m := cfg.NewModel()
	hs := int(cfg.HS)
	bases := append(rng(0, 3, 1), append(rng(hs-6, hs+4, 1), 2*hs-1, 2*hs, 4*hs, 8*hs-1, 8*hs, 8*hs+1, 16*hs)...)
	syms := []byte{0, 1}
	if cfg.Arity != a2 {
		syms = append(syms, byte(cfg.Arity))
	}
	cl := &collector{m: map[string]string{}}
	seen := map[string]bool{}
	var all []string
	for _, b := range bases {
		pre := make([]byte, b)
		for i := range pre {
			pre[i] = byte((i*7 + i/3) & 1)
		}
		var rec func(f []byte, n int)
		rec = func(f []byte, n int) {
			if k := string(f); !seen[k] && !(len(f) > 0 && len(f) <= hs && f[len(f)-1] == 0) {
				seen[k] = true
				all = append(all, k)
			}
			if n == 0 {
				return
			}
			for _, x := range syms {
				rec(append(append([]byte{}, f...), x), n-1)
			}
		}
		rec(pre, tail)
	}
	c.Par(len(all), func(i int) {
		f := all[i]
		c.Case(s, fmt.Sprintf("%x", f), func() {
			nd := trie.NewNodeData()
			nd.PathFragment = []byte(f)
			nd.Terminal = m.CommitToData([]byte("t"))
			cl.add(string(commBytes(m.CalcNodeCommitment(nd))), fmt.Sprintf("%x", f))
		})
	})
	s.States, s.Transitions = int64(len(cl.m)), s.Cases
}

// longData: every length and many single changed bytes of very long values and keys
func (c *Ctx) longData(cfg Cfg) {
	lens := []int{1000, 4095, 4096, 4097, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072, 131073, 1<<20 - 1, 1 << 20, 1<<20 + 1}
	if !c.quick() {
		lens = append(lens, 200000, 1<<21+1, 1<<24-1, 1<<24, 1<<24+1)
	}
	m := cfg.NewModel()
	for _, kind := range []string{"value", "path fragment"} {
		s, end := c.Begin("long "+kind+" "+cfg.String(), fmt.Sprintf("%d lengths up to %d, a changed byte at each power of 2, its neighbours, 41 equidistant positions and the 70 last", len(lens), lens[len(lens)-1]))
		cl := &collector{m: map[string]string{}}
		maxPat := int(cfg.Arity)
		c.Par(len(lens), func(i int) {
			l := lens[i]
			if kind == "path fragment" && l > 300000 {
				return
			}
			b := make([]byte, l)
			for j := range b {
				b[j] = byte(j*7 + j>>8*13 + 1)
				if kind != "value" {
					b[j] = byte(int(b[j]) % (maxPat + 1))
				}
			}
			b[l-1] |= 1
			pos := map[int]bool{-1: true}
			for p := 1; p <= l+1; p *= 2 {
				pos[p-2], pos[p-1], pos[p] = true, true, true
			}
			for j := 0; j <= 40; j++ {
				pos[(l-1)*j/40] = true
			}
			for j := 0; j < 70; j++ {
				pos[l-1-j] = true
			}
			for p := range pos {
				if p >= l {
					continue
				}
				c.Case(s, fmt.Sprintf("%d bytes, changed byte %d", l, p), func() {
					d := b
					if p >= 0 {
						d = append([]byte{}, b...)
						d[p] ^= 1
						if p == l-1 && maxPat > 1 {
							d[p] ^= 3 // it must not be 0
						}
						if p == l-1 && maxPat == 1 && kind != "value" {
							return
						}
					}
					var root []byte
					if kind == "value" {
						tr := newTrie(cfg, m, NewStore(), NewStore())
						tr.Update([]byte("a"), []byte("1"))
						tr.Update([]byte("ab"), d)
						tr.Commit()
						root = rootOf(tr)
					} else {
						nd := trie.NewNodeData()
						nd.PathFragment = d
						nd.Terminal = m.CommitToData([]byte("t"))
						root = commBytes(m.CalcNodeCommitment(nd))
					}
					cl.add(string(root), fmt.Sprintf("%d bytes, changed byte %d", l, p))
				})
			}
		})
		s.States, s.Transitions = int64(len(cl.m)), s.Cases
		end()
	}
}

// kzgFragments: the commitment of a KZG node depends on every byte and the length of its path fragment and of the value
func (c *Ctx) kzgFragments() {
	lens := append(rng(0, 70, 1), 95, 96, 97, 127, 128, 129, 255, 256, 257, 300)
	if !c.quick() {
		lens = rng(0, 300, 1)
	}
	s, end := c.Begin("path fragments and values "+cfgKZG.String(), fmt.Sprintf("%d lengths up to 300, every byte changed", len(lens)))
	defer end()
	m := cfgKZG.NewModel()
	cl := &collector{m: map[string]string{}}
	ct := &collector{m: map[string]string{}}
	c.Par(len(lens), func(i int) {
		l := lens[i]
		for p := -1; p < l; p++ {
			d := []byte(pat(l, 3))
			if p >= 0 {
				d[p] ^= 1 << uint((p+l)%8)
			}
			desc := fmt.Sprintf("%d bytes, changed byte %d", l, p)
			c.Case(s, desc, func() {
				nd := trie.NewNodeData()
				nd.PathFragment = d
				cl.add(string(commBytes(m.CalcNodeCommitment(nd))), desc)
				if l > 0 {
					ct.add(string(m.CommitToData(d).Bytes()), desc)
				}
			})
		}
	})
	s.States, s.Transitions = int64(len(cl.m)), s.Cases
}

func (c *Ctx) knownCollisions() {
	s, end := c.Begin("known findings", "replay of the listed inputs")
	defer end()
	cfg := b2b(a256, h160)
	m := cfg.NewModel()
	long := pat(40, 1)
	lh := string(commitRef(long, h160))
	for _, k := range []struct {
		id   string
		a, b map[string]string
	}{
		{"{\"k\":\"a\"} = {\"k\":0x6100}", map[string]string{"k": "a"}, map[string]string{"k": "a\x00"}},
		{"{\"ab\":\"1\" \"ac\":\"1\"} = {\"a\":0x00 \"ab\":\"1\" \"ac\":\"1\"}", map[string]string{"ab": "1", "ac": "1"}, map[string]string{"a": "\x00", "ab": "1", "ac": "1"}},
		{"{\"x\":\"1\"} = {0x7800:\"1\"}", map[string]string{"x": "1"}, map[string]string{"x\x00": "1"}},
		{"value x = value hash(x)", map[string]string{"k": long}, map[string]string{"k": lh}},
		{"key fragment x = key fragment hash(x)", map[string]string{long: "1"}, map[string]string{lh: "1"}},
	} {
		s.Cases++
		if rootOfContent(cfg, m, k.a) == rootOfContent(cfg, m, k.b) && !c.Known(k.id) {
			c.report(s.Name, k.id, "different contents have the same root", "")
			return
		}
	}
}
