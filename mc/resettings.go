package main

import (
	"fmt"
	"sync/atomic"
)

// resettings: a trie made with the first settings is opened with the second ones, changed, and opened with the first
// ones again. Every time it is what the content says. Settings differ in the key-commitment option and in the threshold only.
func (c *Ctx) resettings(pairs [][2]Cfg, keys []string, vals func(k string) []string) {
	nv := len(vals(keys[0])) + 1
	total1, total2 := 1, 1
	for range keys {
		total1 *= nv
		total2 *= nv + 1
	}
	for _, p := range pairs {
		if c.Done() {
			return
		}
		p := p
		s, end := c.Begin(fmt.Sprintf("other settings %s -> %s keys %q", p[0], p[1], keys),
			fmt.Sprintf("all %d contents persisted with the first settings, opened with the second ones, all %d sets of changes, persisted, opened with the first again", total1, total2))
		plain := p[0]
		plain.KeyOpt, plain.Thr = false, 0
		// data a terminal commits to, by the setting with which it was set
		data := func(cfg Cfg, k, v string) string {
			if cfg.KeyOpt && k == v {
				return unpackRef(k, cfg.Arity)
			}
			return v
		}
		c.Par(total1, func(a int) {
			if c.Done() {
				return
			}
			step := 1
			if c.quick() && total2 > 64 {
				step = total2 / 64
			}
			if c.quick() && plain.Kind == "kzg" {
				step = 5
			}
			for b := a % step; b < total2; b += step {
				id := fmt.Sprintf("content %d, changes %d", a, b)
				b := b
				if !c.Case(s, id, func() {
					x := NewSUT(p[0])
					x.alwaysVS = p[0].Thr+p[1].Thr > 0
					eff := map[string]string{}
					set := func(k, v string) {
						x.Apply(Op{'U', k, v})
						if v == "" {
							delete(eff, k)
						} else {
							eff[k] = data(x.cfg, k, v)
						}
					}
					i := a
					for _, k := range keys {
						if i%nv > 0 {
							set(k, vals(k)[i%nv-1])
						}
						i /= nv
					}
					check := func(when string) {
						exp := expectedView(plain, eff, keys)
						pos := positionsOf(expectFor(plain, eff), keys, plain)
						what := fmt.Sprintf("%s, content %s", when, mapStr(x.content))
						diffViews(what+", trie", viewOf(x.tr.Clone(), pos, probesFor(keys), true), exp)
						diffViews(what+", reader", viewOf(x.reader(), pos, probesFor(keys), true), exp)
					}
					x.Apply(Op{T: 'P'})
					for step, cfg := range []Cfg{p[1], p[0]} {
						x.cfg, x.m = cfg, cfg.NewModel()
						x.Apply(Op{T: 'R'})
						check(fmt.Sprintf("opened with %s", cfg))
						if step == 1 {
							break
						}
						i := b
						for _, k := range keys {
							switch i % (nv + 1) {
							case 0: // unchanged
							case 1:
								set(k, "")
							default:
								set(k, vals(k)[i%(nv+1)-2])
							}
							i /= nv + 1
						}
						x.Apply(Op{T: 'P'})
						check("changed")
						atomic.AddInt64(&s.Transitions, 3)
					}
				}) {
					return
				}
			}
		})
		end()
	}
}
