package main

import (
	"fmt"
	"sync/atomic"

	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C16", "fault_enumeration", runC16)
}

// updRun executes a history of a batched updater with a plan of failures and checks the store at every call
type updRun struct {
	cfg       Cfg
	m         trie.CommitmentModel
	tp, vp    string
	f         *fakeKV
	u         *hive_adaptor.HiveBatchedUpdater
	content   map[string]string   // all updates so far
	committed map[string]string   // acknowledged by the last successful commit
	attempted []map[string]string // contents of the commits which failed since then: they may have reached the store
	foreign   map[string]string
	inCommit  bool
	poison    bool
}

func newUpdRun(cfg Cfg, tp, vp string) *updRun {
	r := &updRun{cfg: cfg, m: cfg.NewModel(), tp: tp, vp: vp, f: newFakeKV(), content: map[string]string{}, committed: map[string]string{}, foreign: map[string]string{}}
	for _, k := range []string{"x", "xx1", "\x00"} {
		if !hasPrefix(k, tp) && !hasPrefix(k, vp) {
			r.foreign[k] = "foreign"
			r.f.mem[k] = "foreign"
		}
	}
	r.f.durable = cp(r.f.mem)
	r.open()
	r.f.onCall = func(string) { r.judge() }
	return r
}

func hasPrefix(k, p string) bool { return len(k) >= len(p) && k[:len(p)] == p }

func (r *updRun) open() {
	// the prefixes of the caller have common memory behind their ends
	ps := prefixSlices([]string{r.tp, r.vp})
	u, err := hive_adaptor.NewHiveBatchedUpdater(r.f, r.m, ps[0], ps[1], r.cfg.KeyOpt)
	if err != nil {
		failf("can't create the updater: %v", err)
	}
	r.u = u
}

// consistent checks one possible content of the store and returns the values
func (r *updRun) consistent(m map[string]string) map[string]string {
	values, nodes := partition(m, r.vp), partition(m, r.tp)
	if want := expectFor(r.cfg, values).store; !eqMap(nodes, want) {
		failf("inconsistent store: values %s, trie %s, expected trie %s", mapStr(values), mapStr(nodes), mapStr(want))
	}
	if len(m) != len(values)+len(nodes)+len(r.foreign) {
		failf("unexpected entries in the store: %s", mapStr(m))
	}
	for k, v := range r.foreign {
		if m[k] != v {
			failf("entry %s outside of the partitions was changed to %s", q(k), q(m[k]))
		}
	}
	return values
}

// judge checks all what can be in the store if the process stops now
func (r *updRun) judge() {
	for _, m := range r.f.crashStates() {
		values := r.consistent(m)
		ok := eqMap(values, r.committed) || r.inCommit && eqMap(values, r.content)
		for _, a := range r.attempted {
			ok = ok || eqMap(values, a)
		}
		if !ok {
			failf("the store has values %s, committed were %s", mapStr(values), mapStr(r.committed))
		}
	}
}

// step applies one operation. It returns true if the operation failed so that the updater can't be used any more
func (r *updRun) step(o Op) (fatal bool) {
	r.f.failed = ""
	if o.T == 'C' {
		var err error
		r.inCommit = true
		msg, p := raised(func() { err = r.u.Commit() })
		r.inCommit = false
		if p || err != nil {
			if r.f.failed == "" {
				failf("Commit: %s, error %v without a failure of the store", msg, err)
			}
			r.attempted = append(r.attempted, cp(r.content))
			r.judge()
			return r.f.failed != "batch.Commit" && r.f.failed != "Flush"
		}
		if r.f.failed != "" {
			failf("failure of the call %s of the store is not reported by Commit", r.f.failed)
		}
		r.committed = cp(r.content)
		r.attempted = nil
		r.judge()
		if !eqMap(r.f.mem, r.f.durable) {
			failf("the store is not flushed after the commit")
		}
		return false
	}
	k, v := []byte(o.K), []byte(o.V)
	_, p := raised(func() { r.u.Update(k, v) })
	if r.poison {
		for _, b := range [][]byte{k, v} {
			for i := range b {
				b[i] ^= 0xA5
			}
		}
	}
	if p && r.f.failed == "" {
		failf("%s panics without a failure of the store", o)
	}
	if !p && r.f.failed != "" {
		failf("failure of the call %s of the store is not reported by %s", r.f.failed, o)
	}
	r.judge()
	if p {
		return r.f.failed != "Batched"
	}
	if o.V == "" {
		delete(r.content, o.K)
	} else {
		r.content[o.K] = o.V
	}
	return false
}

// crash restarts over one of the possible contents of the store
func (r *updRun) crash(which int) {
	cs := r.f.crashStates()
	m := cs[which%len(cs)]
	f := newFakeKV()
	f.mem, f.durable = cp(m), cp(m)
	r.f = f
	r.committed = r.consistent(m)
	r.content = cp(r.committed)
	r.attempted = nil
	f.onCall = func(string) { r.judge() }
	r.open()
}

// final commits without failures and checks that nothing is lost
func (r *updRun) final() {
	r.f.failAt, r.f.failN = 0, 0
	if r.step(Op{T: 'C'}) {
		failf("the final commit fails")
	}
	if len(r.f.mem) > 0 {
		if v := partition(r.f.mem, r.vp); !eqMap(v, r.content) {
			failf("after the final commit the store has values %s, expected %s", mapStr(v), mapStr(r.content))
		}
	}
	rd := trie.NewTrieReader(r.m, hive_adaptor.NewHiveKVStoreAdaptor(r.f, []byte(r.tp)), hive_adaptor.NewHiveKVStoreAdaptor(r.f, []byte(r.vp)))
	if got, want := rootOf(rd), expectFor(r.cfg, r.content).root; hx(got) != hx(want) {
		failf("root is %x, expected %x", got, want)
	}
}

// updaterFaults runs the history without failures, then with a failure at each call of the store
func (c *Ctx) updaterFaults(s *Section, cfg Cfg, tp, vp string, h []Op) {
	mk := func() *updRun { return newUpdRun(cfg, tp, vp) }
	r := mk()
	for _, o := range h {
		if r.step(o) {
			failf("%s fails", o)
		}
	}
	r.final()
	kinds := r.f.kinds
	atomic.AddInt64(&s.Transitions, int64(len(h)+1))
	for n := 1; n <= len(kinds); n++ {
		kind := kinds[n-1]
		commitKind := kind == "batch.Commit" || kind == "Flush" || kind == "Batched"
		for variant := 0; variant < 6; variant++ {
			after := variant&1 == 1
			failN := variant / 2
			if !commitKind && variant > 0 || kind == "Batched" && after {
				continue
			}
			for restart := 0; restart < 3; restart++ {
				// 0: continue with the same updater, if possible; 1, 2: the process stops at the failure
				r := mk()
				r.f.failAt, r.f.after, r.f.failN = n, after, failN
				met := ""
				for _, o := range h {
					fatal := r.step(o)
					if r.f.failed != "" {
						met = r.f.failed
						if fatal || restart > 0 {
							r.crash(restart)
							restarted := r.f
							restarted.failAt = 0
						} else if o.T != 'C' {
							// the update was refused: repeat it
							for r.step(o) || r.f.failed != "" {
							}
						}
					}
				}
				if met == "" {
					break // the failure would be in the final commit, which is covered by the history ending with C
				}
				r.final()
				atomic.AddInt64(&s.Transitions, int64(len(h)+1))
				c.outcomeFast(fmt.Sprintf("failure of %s, effect %v, then %d more, restart %v", met, after, failN, restart > 0))
				if restart == 0 && !commitKind {
					restart = 1
				}
			}
		}
	}
}

func runC16(c *Ctx) {
	c.largeUpdater()
	run := func(cfg Cfg, tp, vp string, keys, vals []string, depth int) {
		s, end := c.Begin(fmt.Sprintf("updater %s keys %s prefixes %s %s", cfg, fmt.Sprintf("%q", keys), q(tp), q(vp)),
			fmt.Sprintf("all sequences of %d operations and a final commit x failure at each call of the store (with and without effect, repeated up to 3 times) x continue or restart", depth))
		defer end()
		s.MaxDepth = depth
		ops := []Op{{T: 'C'}}
		for _, k := range keys {
			for _, v := range vals {
				ops = append(ops, Op{'U', k, v})
			}
			ops = append(ops, Op{'U', k, ""})
			if cfg.KeyOpt && k != "" {
				ops = append(ops, Op{'U', k, k})
			}
		}
		n := 1
		for i := 0; i < depth; i++ {
			n *= len(ops)
		}
		c.Par(n, func(i int) {
			var h []Op
			for j, x := 0, i; j < depth; j++ {
				o := ops[x%len(ops)]
				if o.T == 'C' && (j == 0 || h[j-1].T == 'C') {
					return // no updates: same as a shorter history
				}
				h = append(h, o)
				x /= len(ops)
			}
			if h[depth-1].T != 'C' {
				h = append(h, Op{T: 'C'})
			}
			c.Case(s, histStr(h), func() { c.updaterFaults(s, cfg, tp, vp, h) })
		})
	}
	sym := Cfg{Kind: "sym", Arity: a256}
	long := pat(40, 3)
	run(b2b(a256, h160), "t", "v", []string{"a", "ab"}, []string{"1"}, c.pick(5, 6))
	run(b2b(a256, h160), "t", "v", []string{"ab", "ac", ""}, []string{"1"}, c.pick(4, 5))
	run(sym, "t", "v", []string{"ab", "ac"}, []string{"1", "2"}, c.pick(4, 6))
	run(b2b(a16, h256).thr(20), "tt", "tv", []string{"a", "ab"}, []string{"1", long}, c.pick(4, 5))
	run(b2b(a2, h160).thr(100), "\x01", "\x02", []string{"\x10", "\x11"}, []string{"1", "2"}, c.pick(4, 5))
	run(b2b(a16, h256).thr(100).opt(), "\xff", "\x00", []string{"a", "ab"}, []string{"1"}, c.pick(4, 5))
	run(b2b(a256, h256).opt(), "t", "v", []string{"abc", "abd"}, []string{"1"}, c.pick(4, 5))
	run(cfgKZG, "t", "v", []string{"ab", "ac"}, []string{"1"}, c.pick(3, 4))
	if !c.quick() {
		run(b2b(a256, h160).thr(50), "t", "v", []string{"a", "ab", "abc"}, []string{"1"}, 5)
		run(b2b(a16, h160), "t", "v", []string{"a", "b", "\x10"}, []string{"1"}, 5)
	}
	c.updaterSweeps()
	c.flushOutcomes()
}

// updaterSweeps: longer histories over many keys with a failure of every commit
func (c *Ctx) updaterSweeps() {
	for _, cfg := range []Cfg{b2b(a256, h160), b2b(a16, h256).thr(25), b2b(a2, h160).thr(200).opt()} {
		cfg := cfg
		s, end := c.Begin("updater with many keys "+cfg.String(), "scripted histories over key and value lengths, 3 histories each; failure at each Batched, Commit and Flush call")
		n, f := sweepKeyLens([]int{1, 2, 8, 20, 33, 64, 255, 256})
		n2, f2 := sweepValLens(append(rng(18, 36, 1), 24, 25, 26, 255, 256))
		c.Par(n+n2, func(i int) {
			var keys, vals []string
			var id string
			if i < n {
				keys, vals, id = f(i)
			} else {
				keys, vals, id = f2(i - n)
			}
			c.Case(s, id, func() {
				val := func(i int) string { return vals[i%len(vals)] }
				var h []Op
				for i, k := range keys {
					h = append(h, Op{'U', k, val(i)})
				}
				h = append(h, Op{T: 'C'})
				for i, k := range keys {
					h = append(h, Op{'U', k, ""})
					h = append(h, Op{'U', keys[(i+1)%len(keys)], val(i + 2)})
					h = append(h, Op{T: 'C'})
				}
				for _, k := range keys {
					h = append(h, Op{'U', k, ""})
				}
				h = append(h, Op{T: 'C'})
				c.updaterFaults(s, cfg, "t", "v", h)
			})
		})
		end()
	}
}
