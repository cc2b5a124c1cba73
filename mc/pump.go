package main

import (
	"fmt"
	"strings"
	"sync/atomic"
)

// Long histories and large tries: what is repeated often (counters of 8 and 16 bits of commits, clones, reads,
// generations) and what there is many of (thresholds of caches, counters of nodes)

func pumpWords(length int, letters []Op) [][]Op {
	var r [][]Op
	var rec func(w []Op)
	rec = func(w []Op) {
		if len(w) > 0 {
			r = append(r, append([]Op{}, w...))
		}
		if len(w) == length {
			return
		}
		for _, o := range letters {
			rec(append(w, o))
		}
	}
	rec(nil)
	return r
}

func parseOps(x string) []Op {
	var r []Op
	for _, f := range strings.Fields(x) {
		o := Op{T: f[0]}
		if len(f) > 1 {
			kv := strings.SplitN(f[1:], "=", 2)
			o.K = kv[0]
			if len(kv) > 1 {
				o.V = kv[1]
			}
		}
		r = append(r, o)
	}
	return r
}

var (
	pumpPrefixes = []string{"", "Uabc=0 Uc=0 U=0 P", "Uabc=0 Uc=0 U=0 P R ga C Dc Uad=1"}
	pumpSuffixes = []string{"C", "Uabc=9 Dc C p R", "X Uc=9 Dabc C p R", "L Dabc C p X"}
)

// Pump runs prefix + word^n + suffix, for every word up to the length and every n, applying the aspect in all committed
// states of the suffix
func (c *Ctx) Pump(cfgs []Cfg, letters string, length int, ns []int, a Aspect) {
	words := pumpWords(length, parseOps(letters))
	c.pumpWords(cfgs, words, fmt.Sprintf("all %d words up to length %d over [%s]", len(words), length, letters), ns, a)
}

func (c *Ctx) pumpWords(cfgs []Cfg, words [][]Op, what string, ns []int, a Aspect) {
	for _, cfg := range cfgs {
		if c.Done() {
			return
		}
		cfg := cfg
		s, end := c.Begin(fmt.Sprintf("repetitions %v %s", ns, cfg), fmt.Sprintf("%s x %d prefixes x %d suffixes", what, len(pumpPrefixes), len(pumpSuffixes)))
		c.Par(len(words)*len(ns)*len(pumpPrefixes), func(i int) {
			if c.Done() {
				return
			}
			w, n, pre := words[i/len(pumpPrefixes)%len(words)], ns[i/len(pumpPrefixes)/len(words)], parseOps(pumpPrefixes[i%len(pumpPrefixes)])
			sfx := pumpSuffixes
			if n > 1000 {
				sfx = []string{pumpSuffixes[i%len(pumpPrefixes)], pumpSuffixes[3]}[:1]
			}
			for _, suf := range sfx {
				c.Case(s, fmt.Sprintf("%s (%s)^%d %s", histStr(pre), histStr(w), n, suf), func() {
					x := NewSUT(cfg)
					t := 0
					do := func(o Op) {
						if x.Enabled(o) {
							x.Apply(o)
							t++
						}
					}
					for _, o := range pre {
						do(o)
					}
					for j := 0; j < n; j++ {
						for _, o := range w {
							do(o)
						}
					}
					for _, o := range parseOps(suf) {
						do(o)
						if !x.dirty {
							a(x, parseOps("Ua=1 Uab=1 Uabc=1 Uc=1 U=1 Uad=1"))
						}
					}
					atomic.AddInt64(&s.Transitions, int64(t))
				})
			}
		})
		end()
	}
}

const pumpLetters = "Ua=1 Ua=2 Uab=1 Da Dab C p R X L ga"

// Pumps is the standard selection; the reduced one is for aspects which take long
func (c *Ctx) Pumps(cfgs []Cfg, a Aspect, full bool) {
	if full {
		c.Pump(cfgs[:1], pumpLetters, 2, []int{254, 255, 256, 257}, a)
		c.Pump(cfgs[:1], "Ua=1 Ua=2 Uab=1 Da Dab C p R L", 3, []int{128}, a)
	} else {
		c.Pump(cfgs[:1], "Ua=1 Ua=2 Dab C p R X L ga", 2, []int{128, 255, 256}[c.pick(2, 0):], a)
	}
	c.Pump(cfgs[1:], pumpLetters, c.pick(1, 2), []int{127, 128, 254, 255, 256, 257}, a)
	words := [][]Op{parseOps("C"), parseOps("Ua=1 C Ua=2 C"), parseOps("ga"), parseOps("Uab=1 Dab"), parseOps("Ua=1 C p Da C p"), parseOps("L"), parseOps("R"), parseOps("Ua=1 X")}
	ns := []int{65535, 65536, 65537}
	if c.quick() {
		if !full {
			return
		}
		words, ns = words[:5], ns[1:2]
	}
	c.pumpWords(cfgs[:1], words, fmt.Sprintf("%d words", len(words)), ns, a)
}

// Large: tries of many keys, all in the cache, then persisted, reopened and deleted
func (c *Ctx) Large(cfgs []Cfg, sizes []int, a Aspect) {
	for _, cfg := range cfgs {
		if c.Done() {
			return
		}
		cfg := cfg
		s, end := c.Begin("large tries "+cfg.String(), fmt.Sprintf("%v keys x 2 histories", sizes))
		c.Par(len(sizes)*2, func(i int) {
			n := sizes[len(sizes)-1-i/2]
			keys := make([]string, n)
			for j := range keys {
				x := j * 40503 // odd: a permutation of the 16 bit numbers
				keys[j] = string([]byte{byte(x >> 8), byte(x)})
				if j >= 65536 {
					keys[j] = string([]byte{byte(x), byte(j), byte(x >> 8)})
				}
				if j%97 == 96 && j < 97*256 {
					keys[j] = string([]byte{byte(j / 97)})
				}
			}
			keys = dedup(keys)
			c.Case(s, fmt.Sprintf("%d keys, history %d", len(keys), i%2), func() {
				atomic.AddInt64(&s.Transitions, c.bigHistory(cfg, keys, i%2, a))
			})
		})
		end()
	}
}

// bigHistory: many updates and deletions with few commits; the aspect is applied in the committed states
func (c *Ctx) bigHistory(cfg Cfg, keys []string, kind int, a Aspect) int64 {
	x := NewSUT(cfg)
	// keys at both ends and in the middle of the order are read by the aspect
	var h []Op
	for _, j := range []int{0, 1, len(keys) / 2, len(keys) - 2, len(keys) - 1} {
		h = append(h, Op{'U', keys[j], ""})
	}
	run := func(ops string) {
		for k := range ops {
			x.Apply(Op{T: ops[k]})
			if !x.dirty {
				a(x, h)
			}
		}
	}
	up := func(from, step int, v string) {
		for j := from; j < len(keys); j += step {
			x.Apply(Op{'U', keys[j], v})
		}
	}
	del := func(from, step int) {
		for j := from; j < len(keys); j += step {
			x.Apply(Op{'D', keys[j], ""})
		}
	}
	if kind == 0 {
		up(0, 1, "v")
		run("C")
		run("p")
		run("R")
		del(1, 2)
		run("C")
		run("p")
		run("X")
		del(0, 2)
		run("C")
		run("p")
	} else {
		up(0, 2, "v")
		run("C")
		up(1, 2, "w")
		run("C")
		run("p")
		up(0, 3, "x")
		del(1, 3)
		run("C")
		run("p")
		run("R")
	}
	return int64(3 * len(keys))
}

// Deep: chains of nested keys, so that paths and proofs have many nodes
func (c *Ctx) Deep(cfgs []Cfg, depths []int, a Aspect) {
	for _, cfg := range cfgs {
		if c.Done() {
			return
		}
		cfg := cfg
		s, end := c.Begin("deep tries "+cfg.String(), fmt.Sprintf("chains of %v nodes x 3 orders x 2 histories", depths))
		c.Par(len(depths)*6, func(i int) {
			n := depths[len(depths)-1-i/6]
			long := pat(n, 5)
			keys := make([]string, n)
			for j := range keys {
				switch i / 2 % 3 {
				case 0:
					keys[j] = long[:j]
				case 1:
					keys[j] = long[:n-1-j]
				case 2: // neither up nor down
					keys[j] = long[:j*7919%n]
				}
			}
			keys = dedup(keys)
			c.Case(s, fmt.Sprintf("%d nodes, order %d, history %d", len(keys), i/2%3, i%2), func() {
				atomic.AddInt64(&s.Transitions, c.bigHistory(cfg, keys, i%2, a))
			})
		})
		end()
	}
}
