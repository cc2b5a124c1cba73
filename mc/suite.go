package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
)

// common explorations of the trie, parametrized by the oracle (aspect) of the property

type Aspect func(s *SUT, h []Op)

// universes of keys which collide in all the ways the code distinguishes: prefix chains, forks at nodes with and
// without terminals, splits inside path fragments at different depths, extreme symbols, nibble and bit forks
var universes3 = map[string][]string{
	"chain":   {"", "a", "ab"},
	"chain2":  {"a", "abc", "abcde"},
	"fork":    {"a", "ab", "ac"},
	"forkE":   {"", "b", "c"},
	"long":    {"aa", "aab", "aba"},
	"split":   {"abcd", "abce", "abX"},
	"split2":  {"abcd", "ab", "acdd"},
	"zeros":   {"\x00", "\x00\x00", "\x00\x01"},
	"ff":      {"\xff", "\xff\xff", "\xff\x00"},
	"nib":     {"\x10", "\x11", "\x20"},
	"nib2":    {"\x10\x00", "\x10\x0f", "\x10"},
	"bits":    {"\x80", "\x00", "\x01"},
	"distant": {"a", "b\x01", "\xf0"},
}

var universes6 = map[string][]string{
	"mix":   {"", "a", "ab", "ac", "abc", "b"},
	"deep":  {"abcd", "abce", "abd", "ab", "acx", "b"},
	"bytes": {"\x00", "\x00\x00", "\x00\xff", "\xff", "\x10", "\x11"},
}

func sortedNames(m map[string][]string) []string {
	var n []string
	for k := range m {
		n = append(n, k)
	}
	sort.Strings(n)
	return n
}

func pickUni(names ...string) map[string][]string {
	r := map[string][]string{}
	for _, n := range names {
		if u, ok := universes3[n]; ok {
			r[n] = u
		} else if u, ok := universes6[n]; ok {
			r[n] = u
		} else {
			panic("harness error: universe " + n)
		}
	}
	return r
}

// Closures explores all reachable states for every universe and configuration
func (c *Ctx) Closures(cfgs []Cfg, unis map[string][]string, vals []string, extra string, a Aspect, onNew Aspect, maxStates int64, maxDepth int) {
	for _, cfg := range cfgs {
		for _, n := range sortedNames(unis) {
			if c.Done() {
				return
			}
			cfg := cfg
			b := "all reachable states (complete closure)"
			if maxDepth > 0 {
				b = fmt.Sprintf("all histories up to depth %d", maxDepth)
			}
			c.BFS(Machine{Name: fmt.Sprintf("closure %s %s vals=%d ops=%s", n, cfg, len(vals), extra), Bound: b, Ops: opsFor(unis[n], vals, extra),
				New: func() *SUT { return NewSUT(cfg) }, Check: a, CheckNew: onNew, MaxStates: maxStates, MaxDepth: maxDepth})
		}
	}
}

// Phases starts from every content over the universe (every subset of keys), persisted and reopened or kept in the
// cache, and runs all sequences of mutations up to the given length in between commits, followed by commit, persist
// and reopen
func (c *Ctx) Phases(cfg Cfg, name string, keys []string, vals []string, length int, modes string, a Aspect) {
	for _, mode := range modes {
		s, end := c.Begin(fmt.Sprintf("phases %s %s mode=%c length=%d", name, cfg, mode, length),
			fmt.Sprintf("all subsets of %d keys x all sequences of %d mutations", len(keys), length))
		s.MaxDepth = length
		ops := opsFor(keys, vals, "")
		c.Par(1<<uint(len(keys)), func(sub int) {
			var pre []Op
			for i, k := range keys {
				if sub&(1<<uint(i)) != 0 {
					pre = append(pre, Op{'U', k, "0"})
				}
			}
			switch mode {
			case 'R': // reopened from the store
				pre = append(pre, Op{T: 'P'}, Op{T: 'R'})
			case 'C': // committed in cache
				pre = append(pre, Op{T: 'C'})
			case 'P': // persisted, cache kept
				pre = append(pre, Op{T: 'P'})
			}
			seq := make([]int, length)
			for {
				if c.Done() {
					return
				}
				h := append([]Op{}, pre...)
				for _, i := range seq {
					h = append(h, ops[i])
				}
				h = append(h, Op{T: 'C'}, Op{T: 'p'}, Op{T: 'R'})
				ok := c.Case(s, histStr(h), func() {
					x := NewSUT(cfg)
					for i, o := range h {
						x.Apply(o)
						if i >= len(h)-3 {
							a(x, h[:i+1])
						}
					}
				})
				if !ok {
					return
				}
				atomic.AddInt64(&s.Transitions, int64(len(h)))
				i := length - 1
				for ; i >= 0; i-- {
					seq[i]++
					if seq[i] < len(ops) {
						break
					}
					seq[i] = 0
				}
				if i < 0 {
					return
				}
			}
		})
		end()
	}
}

// script is a fixed history over the keys that visits insertion in order, persist, reopen, deletion in both orders
func scripts(keys []string, val func(i int) string) [][]Op {
	var ins, del, rdel []Op
	for i, k := range keys {
		ins = append(ins, Op{'U', k, val(i)})
		del = append(del, Op{'D', k, ""})
		rdel = append([]Op{{'D', k, ""}}, rdel...)
	}
	cat := func(x ...[]Op) []Op {
		var r []Op
		for _, y := range x {
			r = append(r, y...)
		}
		return r
	}
	op := func(s string) []Op {
		var r []Op
		for i := range s {
			r = append(r, Op{T: s[i]})
		}
		return r
	}
	each := func(x []Op, after string) []Op {
		var r []Op
		for _, o := range x {
			r = append(r, o)
			r = append(r, op(after)...)
		}
		return r
	}
	return [][]Op{
		cat(ins, op("PR"), each(del, "CpR")),
		cat(each(ins, "CpX"), each(rdel, "C"), op("p")),
		cat(ins, op("C"), del[:len(del)-1], op("CpR"), ins, op("CpR")),
	}
}

// Sweep runs the scripts over a list of universes (one case per universe), applying the aspect after every operation
// that leaves the trie committed
func (c *Ctx) Sweep(name string, cfgs []Cfg, n int, uni func(i int) (keys []string, vals []string, id string), a Aspect) {
	for _, cfg := range cfgs {
		cfg := cfg
		s, end := c.Begin("sweep "+name+" "+cfg.String(), fmt.Sprintf("all %d points of the sweep x 3 histories", n))
		c.Par(n, func(i int) {
			keys, vals, id := uni(i)
			c.Case(s, id, func() {
				for _, h := range scripts(keys, func(j int) string { return vals[j%len(vals)] }) {
					x := NewSUT(cfg)
					for j, o := range h {
						x.Apply(o)
						atomic.AddInt64(&s.Transitions, 1)
						if !x.dirty {
							func() {
								defer func() {
									if r := recover(); r != nil {
										if f, ok := r.(failure); ok {
											panic(failure{f.msg + "\n after history: " + histStr(h[:j+1])})
										}
										panic(r)
									}
								}()
								a(x, h[:j+1])
							}()
						}
					}
				}
			})
		})
		end()
	}
}

// ---- sweeps

// boundary lengths of keys, fragments and values: around hash sizes, around the sizes of length prefixes and powers of two
var boundaryLens = []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 18, 19, 20, 21, 22, 30, 31, 32, 33, 34, 39, 40, 41, 62, 63, 64, 65, 66, 95, 96, 97, 126, 127, 128, 129, 130, 160, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000}

func rep(b string, n int) string { return strings.Repeat(b, n) }

// patterned string of n bytes without zero bytes
func pat(n int, salt byte) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + (i*7+int(salt)*31+i/251)%255)
	}
	return string(b)
}

// sweepSymbols: every pair of child indices (b1, b2) below a node
func sweepSymbols(step int) (int, func(i int) ([]string, []string, string)) {
	var pairs [][2]int
	for b := 0; b < 256; b++ {
		for d := 1; d < 256; d += step {
			b2 := (b + d) % 256
			pairs = append(pairs, [2]int{b, b2})
		}
	}
	return len(pairs), func(i int) ([]string, []string, string) {
		p, r := string([]byte{byte(pairs[i][0])}), string([]byte{byte(pairs[i][1])})
		keys := []string{"k" + p, "k" + r + "z", "k" + p + "y"}
		if i%2 == 1 {
			keys = append(keys, "k")
		}
		return keys, []string{"v", "w"}, fmt.Sprintf("children %d and %d", pairs[i][0], pairs[i][1])
	}
}

// sweepKeyLens: keys of every length with forks at the start, in the middle and at the end
func sweepKeyLens(lens []int) (int, func(i int) ([]string, []string, string)) {
	return len(lens) * 4, func(i int) ([]string, []string, string) {
		l := lens[i/4]
		base := pat(l, 3)
		mod := func(p int) string {
			b := []byte(base)
			b[p] ^= 0x41
			return string(b)
		}
		var keys []string
		switch i % 4 {
		case 0:
			keys = []string{base, base + "x", base + "xy"}
		case 1:
			keys = []string{base, mod(l - 1), mod(l / 2), "q"}
		case 2:
			keys = []string{base, base[:l/2], mod(0)}
		case 3:
			keys = []string{base + "1", base + "2", base + "\x00"}
		}
		return dedup(keys), []string{"v", "w"}, fmt.Sprintf("key length %d shape %d", l, i%4)
	}
}

// sweepValLens: values of every length
func sweepValLens(lens []int) (int, func(i int) ([]string, []string, string)) {
	return len(lens), func(i int) ([]string, []string, string) {
		l := lens[i]
		return []string{"a", "ab", "c", ""}, []string{pat(l, 1), pat(l, 2), pat(l+1, 2)}, fmt.Sprintf("value length %d", l)
	}
}

// sweepFan: nodes with many children: first n symbols of an enumeration
func sweepFan(ns []int) (int, func(i int) ([]string, []string, string)) {
	return len(ns) * 2, func(i int) ([]string, []string, string) {
		n := ns[i/2]
		var keys []string
		for j := 0; j < n; j++ {
			b := byte(j)
			if i%2 == 1 {
				b = byte(255 - j)
			}
			keys = append(keys, "f"+string([]byte{b}))
		}
		return keys, []string{"v", "w", "x"}, fmt.Sprintf("%d children, order %d", n, i%2)
	}
}

// sweepDepth: a chain of keys, each extending the previous by one symbol
func sweepDepth(ns []int) (int, func(i int) ([]string, []string, string)) {
	return len(ns), func(i int) ([]string, []string, string) {
		var keys []string
		s := ""
		for j := 0; j < ns[i]; j++ {
			keys = append(keys, s)
			s += string([]byte{byte('a' + j%7)})
		}
		return keys, []string{"v", "w", "x"}, fmt.Sprintf("chain of %d keys", ns[i])
	}
}

func dedup(x []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, k := range x {
		if !seen[k] {
			seen[k] = true
			r = append(r, k)
		}
	}
	return r
}

func rng(a, b, step int) []int {
	var r []int
	for i := a; i <= b; i += step {
		r = append(r, i)
	}
	return r
}

// bulkScripts: many keys are inserted, changed and deleted within one commit
func bulkScripts(keys []string) [][]Op {
	n := len(keys)
	all := func(from, to, step int, f func(i int) Op) []Op {
		var r []Op
		for i := from; i < to; i += step {
			r = append(r, f(i))
		}
		return r
	}
	ins := func(v string) func(i int) Op { return func(i int) Op { return Op{'U', keys[i], v} } }
	del := func(i int) Op { return Op{'D', keys[i], ""} }
	cat := func(x ...interface{}) []Op {
		var r []Op
		for _, y := range x {
			switch y := y.(type) {
			case []Op:
				r = append(r, y...)
			case string:
				for i := range y {
					r = append(r, Op{T: y[i]})
				}
			}
		}
		return r
	}
	return [][]Op{
		cat(all(0, n, 1, ins("v")), "CpR", all(0, n, 1, ins("w")), "CpR", all(0, n-1, 1, del), "CpR", all(0, n-1, 1, ins("w")), all(n-1, n, 1, del), "CpR", all(0, n-1, 1, del), "CpR"),
		cat(all(0, n/2, 1, ins("v")), "CF", all(n/2, n, 1, ins("w")), all(0, n/2, 2, del), "CpR", all(0, n, 2, ins("x")), all(1, n, 2, del), "CpX", all(0, n, 2, del), all(1, n, 2, ins("w")), "C", all(1, n, 2, del), "CpR"),
	}
}

// Bulk: nodes with many children which change in one commit, at the root, below a node with a terminal, and two levels
func (c *Ctx) Bulk(cfgs []Cfg, a Aspect) {
	ns := []int{2, 15, 16, 17, 32, 33, 64, 65, 127, 128, 129, 200, 255, 256}
	if c.quick() {
		ns = []int{3, 16, 17, 65, 129, 256}
	}
	for _, cfg := range cfgs {
		if c.Done() {
			return
		}
		cfg := cfg
		s, end := c.Begin("bulk changes "+cfg.String(), fmt.Sprintf("%v keys with one parent x 3 shapes x 2 histories", ns))
		c.Par(len(ns)*6, func(i int) {
			n := ns[len(ns)-1-i/6]
			c.Case(s, fmt.Sprintf("%d keys shape %d history %d", n, i%3, i/3%2), func() {
				var keys []string
				if i%3 == 1 {
					keys = append(keys, "f")
				}
				for j := 0; j < n; j++ {
					switch k := string([]byte{byte(j * 59)}); i % 3 { // 59 is coprime to 256
					case 0:
						keys = append(keys, k)
					case 1:
						keys = append(keys, "f"+k+"x")
					case 2:
						keys = append(keys, "g"+k, "g"+k+"x")
					}
				}
				x := NewSUT(cfg)
				h := bulkScripts(keys)[i/3%2]
				for j, o := range h {
					x.Apply(o)
					atomic.AddInt64(&s.Transitions, 1)
					if !x.dirty {
						a(x, h[:j+1])
					}
				}
			})
		})
		end()
	}
}

// AllSweeps runs the standard sweeps. weight selects how dense
func (c *Ctx) AllSweeps(cfgs []Cfg, a Aspect, sel string) {
	if c.Done() {
		return
	}
	if strings.Contains(sel, "s") {
		n, f := sweepSymbols(c.pick(17, 1))
		c.Sweep("symbol pairs", cfgs, n, f, a)
	}
	if strings.Contains(sel, "S") { // sparse
		n, f := sweepSymbols(c.pick(85, 5))
		c.Sweep("symbol pairs", cfgs, n, f, a)
	}
	if strings.Contains(sel, "k") {
		lens := append(append([]int{}, boundaryLens...), 2049, 8200)
		if !c.quick() {
			lens = append(rng(1, 700, 1), 1000, 2048, 4096, 8191, 8192, 8193, 16384, 32768, 65000)
		}
		n, f := sweepKeyLens(lens)
		c.Sweep("key lengths", cfgs, n, f, a)
	}
	if strings.Contains(sel, "v") {
		lens := append(rng(1, 70, 1), boundaryLens...)
		lens = append(lens, 65535, 65536)
		if !c.quick() {
			lens = append(rng(1, 700, 1), 65535, 65536)
		}
		n, f := sweepValLens(lens)
		c.Sweep("value lengths", cfgs, n, f, a)
	}
	if strings.Contains(sel, "V") { // values kept in the value store only, whatever their length
		n, f := sweepValLens([]int{255, 4096, 65535, 65536, 1 << 20})
		for i, cfg := range cfgs {
			if c.quick() && i > 1 {
				break
			}
			c.Sweep("value lengths, values in the value store", []Cfg{cfg.thr(1 << 21)}, n, f, a)
		}
	}
	if strings.Contains(sel, "f") {
		fan := []int{2, 3, 8, 9, 15, 16, 17, 31, 33}
		if !c.quick() {
			fan = append(fan, 64, 127, 128, 200, 255, 256)
		}
		n, f := sweepFan(fan)
		c.Sweep("fan-out", cfgs, n, f, a)
	}
	if strings.Contains(sel, "d") {
		n, f := sweepDepth([]int{2, 3, 5, 8, 12, 20})
		c.Sweep("chain depth", cfgs, n, f, a)
	}
}
