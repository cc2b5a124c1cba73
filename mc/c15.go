package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/trie"
)

func init() {
	register("C15", "fault_enumeration", runC15)
}

// part is a partition together with its model
type part struct {
	prefix string
	st     trie.KVStore
	m      map[string]string
}

type kvOp struct {
	p int // partition
	k string
	v string
	e int // 0 - Set value, 1 - Set nil, 2 - Set empty slice
}

func (o kvOp) String() string {
	return fmt.Sprintf("%d.Set(%s,%s%s)", o.p, q(o.k), q(o.v), []string{"", "nil", "[]"}[o.e])
}

func (o kvOp) apply(p []*part) {
	k, v := []byte(o.k), []byte(o.v)
	switch o.e {
	case 1:
		v = nil
	case 2:
		v = []byte{}
	}
	p[o.p].st.Set(k, v)
	if string(k) != o.k {
		failf("Set changed the key of the caller")
	}
	if len(v) == 0 {
		delete(p[o.p].m, o.k)
	} else {
		p[o.p].m[o.k] = o.v
	}
}

// judgePart compares the partition with its model
func judgePart(x *part, probes []string) {
	for _, k := range probes {
		kb := []byte(k)
		v := x.st.Get(kb)
		w, present := x.m[k]
		if !present && v != nil || present && string(v) != w {
			failf("partition %s: Get(%s) is %x, expected %s", q(x.prefix), q(k), v, q(w))
		}
		if x.st.Has(kb) != present {
			failf("partition %s: Has(%s) is %v", q(x.prefix), q(k), !present)
		}
		if string(kb) != k {
			failf("key of the caller was changed")
		}
	}
	got := map[string]string{}
	n := 0
	x.st.Iterate(func(k, v []byte) bool {
		got[string(k)] = string(v)
		n++
		return true
	})
	if n != len(x.m) || !eqMap(got, x.m) {
		failf("partition %s: iteration visits %d entries: %s, expected %s", q(x.prefix), n, mapStr(got), mapStr(x.m))
	}
	for stop := 1; stop <= len(x.m); stop++ {
		n := 0
		got := map[string]bool{}
		x.st.Iterate(func(k, v []byte) bool {
			if n >= stop {
				failf("partition %s: iteration continues after the consumer has stopped it", q(x.prefix))
			}
			if w, ok := x.m[string(k)]; !ok || w != string(v) {
				failf("partition %s: iteration shows %x:%x", q(x.prefix), k, v)
			}
			got[string(k)] = true
			n++
			return n < stop
		})
		if n != stop || len(got) != stop {
			failf("partition %s: stopped iteration visits %d entries instead of %d", q(x.prefix), n, stop)
		}
	}
	if trie.NumEntries(x.st) != len(x.m) {
		failf("NumEntries is wrong")
	}
}

type kvBackend struct {
	name string
	mk   func() (kvstore.KVStore, func() map[string]string)
}

func backends() []kvBackend {
	return []kvBackend{
		{"reference store", func() (kvstore.KVStore, func() map[string]string) {
			f := newFakeKV()
			return f, func() map[string]string { return f.mem }
		}},
		{"mapdb", func() (kvstore.KVStore, func() map[string]string) {
			f := mapdb.NewMapDB()
			return f, func() map[string]string {
				r := map[string]string{}
				_ = f.Iterate(kvstore.EmptyPrefix, func(k, v []byte) bool {
					r[string(k)] = string(v)
					return true
				})
				return r
			}
		}},
	}
}

// prefixSlices cuts the prefixes from one buffer, so that the slices have common memory behind their ends
func prefixSlices(ps []string) [][]byte {
	buf := []byte(strings.Join(ps, "") + "~~~~~~~~")
	r := make([][]byte, len(ps))
	n := 0
	for i, p := range ps {
		r[i] = buf[n : n+len(p)]
		n += len(p)
	}
	return r
}

func runC15(c *Ctx) {
	c.largeStores()
	keys := []string{"", "a", "ab", "\x01"}
	groups := []struct {
		name    string
		parts   []string
		foreign []string
	}{
		{"two partitions", []string{"\x01", "\x02"}, []string{"\x00", "\x03a", ""}},
		{"three partitions", []string{"aa", "ab", "ba"}, []string{"a", "a\xff", "", "ac"}},
		{"partition of everything", []string{""}, nil},
		{"extreme prefixes", []string{"\xff\xff", "\x00\x00"}, []string{"\xff", "\x00", "\x00\x01x"}},
	}
	for _, be := range backends() {
		for _, g := range groups {
			be, g := be, g
			depth := c.pick(4, 5)
			if len(g.parts) == 1 {
				depth = c.pick(5, 6)
			}
			var ops []kvOp
			ks := keys
			if len(g.parts) > 2 {
				ks = keys[:3]
			}
			for p := range g.parts {
				for _, k := range ks {
					ops = append(ops, kvOp{p, k, "1", 0}, kvOp{p, k, "22", 0}, kvOp{p, k, "", 1 + p%2})
				}
			}
			s, end := c.Begin(fmt.Sprintf("%s, %s", g.name, be.name), fmt.Sprintf("all sequences of %d writes over %d operations; all reads after each", depth, len(ops)))
			var probes []string
			for _, k := range keys {
				probes = append(probes, k, k+"b", g.parts[0]+k, g.parts[len(g.parts)-1]+k)
			}
			probes = dedup(probes)
			c.Par(len(ops)*len(ops), func(i int) {
				var rec func(h []kvOp)
				rec = func(h []kvOp) {
					if c.Done() {
						return
					}
					if !c.Case(s, fmt.Sprint(h), func() {
						kv, content := be.mk()
						frgn := map[string]string{}
						for _, k := range g.foreign {
							_ = kv.Set([]byte(k), []byte("foreign"))
							frgn[k] = "foreign"
						}
						var ps []*part
						for j, b := range prefixSlices(g.parts) {
							ps = append(ps, &part{g.parts[j], hive_adaptor.NewHiveKVStoreAdaptor(kv, b), map[string]string{}})
						}
						for j, o := range h {
							o.apply(ps)
							if j < len(h)-1 && len(h) > 2 {
								continue // checked as a shorter history
							}
							want := cp(frgn)
							for _, p := range ps {
								judgePart(p, probes)
								for k, v := range p.m {
									want[p.prefix+k] = v
								}
							}
							if got := content(); !eqMap(got, want) {
								failf("the store has %s, expected %s", mapStr(got), mapStr(want))
							}
						}
					}) {
						return
					}
					atomic.AddInt64(&s.Transitions, int64(len(h)))
					if len(h) < depth {
						for _, o := range ops {
							rec(append(append([]kvOp{}, h...), o))
						}
					}
				}
				rec([]kvOp{ops[i/len(ops)], ops[i%len(ops)]})
			})
			end()
		}
	}
	// in-memory store
	s, end := c.Begin("in-memory store", "all sequences of 5 (thorough 6) writes over 12 operations")
	var ops []kvOp
	for i, k := range keys {
		ops = append(ops, kvOp{0, k, "1", 0}, kvOp{0, k, "22", 0}, kvOp{0, k, "", 1 + i%2})
	}
	depth := c.pick(5, 6)
	c.Par(len(ops)*len(ops), func(i int) {
		var rec func(h []kvOp)
		rec = func(h []kvOp) {
			if c.Done() || !c.Case(s, fmt.Sprint(h), func() {
				x := &part{"", trie.NewInMemoryKVStore(), map[string]string{}}
				for _, o := range h {
					o.apply([]*part{x})
				}
				judgePart(x, []string{"", "a", "ab", "\x01", "b", "\x00"})
			}) {
				return
			}
			atomic.AddInt64(&s.Transitions, int64(len(h)))
			if len(h) < depth {
				for _, o := range ops {
					rec(append(append([]kvOp{}, h...), o))
				}
			}
		}
		rec([]kvOp{ops[i/len(ops)], ops[i%len(ops)]})
	})
	end()

	// faults: every call of the underlying store in every operation
	for _, after := range []bool{false, true} {
		s, end = c.Begin(fmt.Sprintf("failures, effect before the failure: %v", after), "all states of 3 keys x operation x failure at each call of the underlying store")
		for _, prefix := range []string{"", "p", "pp"} {
			for st := 0; st < 8; st++ {
				for _, k := range keys[:3] {
					for op := 0; op < 8; op++ {
						prefix, st, k, op, after := prefix, st, k, op, after
						c.Case(s, fmt.Sprintf("prefix %s state %d op %d key %s", q(prefix), st, op, q(k)), func() {
							c.adaptorFaults(s, prefix, st, k, op, after)
						})
					}
				}
			}
		}
		end()
	}

	// keys and prefixes of all lengths
	s, end = c.Begin("lengths", "keys and prefixes of boundary lengths")
	for _, be := range backends() {
		for _, pl := range []int{0, 1, 2, 8, 33, 256} {
			be, pl := be, pl
			c.Case(s, fmt.Sprintf("%s, prefix of %d", be.name, pl), func() {
				kv, content := be.mk()
				prefix := pat(pl, 3)
				x := &part{prefix, hive_adaptor.NewHiveKVStoreAdaptor(kv, []byte(prefix)), map[string]string{}}
				var probes []string
				for i, l := range boundaryLens {
					for _, k := range []string{pat(l, 1), pat(l, 2), prefix + pat(l, 1)} {
						kvOp{0, k, pat(1+l%50, byte(i)), 0}.apply([]*part{x})
						probes = append(probes, k, k+"\x00")
					}
				}
				probes = dedup(probes)
				sort.Strings(probes)
				for r := 0; r < 2; r++ {
					for _, k := range probes {
						v := x.st.Get([]byte(k))
						if w, ok := x.m[k]; string(v) != w || x.st.Has([]byte(k)) != ok {
							failf("key %s: value %s, expected %s", q(k), q(string(v)), q(w))
						}
					}
					got := map[string]string{}
					x.st.Iterate(func(k, v []byte) bool {
						got[string(k)] = string(v)
						return true
					})
					want := map[string]string{}
					for k, v := range x.m {
						want[prefix+k] = v
					}
					if !eqMap(got, x.m) || !eqMap(content(), want) {
						failf("the content is different: %s, expected %s", mapStr(got), mapStr(x.m))
					}
					for i, k := range sortedKeys(x.m) {
						if i%2 == 0 {
							kvOp{0, k, "", 1}.apply([]*part{x})
						}
					}
				}
			})
		}
	}
	end()
}

// adaptorFaults runs one operation with a failure of each call of the underlying store: it must be raised
func (c *Ctx) adaptorFaults(s *Section, prefix string, st int, k string, op int, after bool) {
	for failAt := 1; ; failAt++ {
		f := newFakeKV()
		ks := []string{"", "a", "ab"}
		for i, x := range ks {
			if st&(1<<uint(i)) != 0 {
				f.mem[prefix+x] = "old" + x
			}
		}
		before := cp(f.mem)
		f.calls, f.failAt, f.after = 0, failAt, after
		a := hive_adaptor.NewHiveKVStoreAdaptor(f, []byte(prefix))
		n := 0
		what := ""
		_, isRaised := raised(func() {
			switch op {
			case 0:
				what = "Get"
				a.Get([]byte(k))
			case 1:
				what = "Has"
				a.Has([]byte(k))
			case 2:
				what = "Set"
				a.Set([]byte(k), []byte("new"))
			case 3:
				what = "Set(nil)"
				a.Set([]byte(k), nil)
			case 4:
				what = "Iterate"
				a.Iterate(func(x, v []byte) bool { n++; return true })
			case 5:
				what = "Iterate with stop"
				a.Iterate(func(x, v []byte) bool { n++; return false })
			case 6:
				what = "NumEntries"
				trie.NumEntries(a)
			case 7:
				what = "ByteSize"
				trie.ByteSize(a)
			}
		})
		atomic.AddInt64(&s.Transitions, 1)
		if f.failed == "" {
			// the operation makes less calls
			if isRaised {
				failf("%s panics without a failure of the store", what)
			}
			break
		}
		c.outcomeFast(what + " failing in " + f.failed)
		if !isRaised {
			failf("%s: failure of the call %s of the store is not raised", what, f.failed)
		}
		want := cp(before)
		if after {
			if op == 2 {
				want[prefix+k] = "new"
			} else if op == 3 {
				delete(want, prefix+k)
			}
		}
		if !eqMap(f.mem, want) && !(after && eqMap(f.mem, before)) {
			failf("%s: failing operation changed the store from %s to %s", what, mapStr(before), mapStr(f.mem))
		}
	}
}
