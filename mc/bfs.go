package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"
)

// Machine is an explicit-state search over the real code
type Machine struct {
	Name      string
	Bound     string
	Ops       []Op
	New       func() *SUT
	Enabled   func(s *SUT, o Op) bool
	Check     func(s *SUT, h []Op) // evaluated after every transition (also into visited states)
	CheckNew  func(s *SUT, h []Op) // evaluated once in every new state
	MaxDepth  int
	MaxStates int64
}

type bnode struct {
	parent int32
	op     uint16
}

func (c *Ctx) BFS(m Machine) {
	s, end := c.Begin(m.Name, m.Bound)
	defer end()
	t0 := time.Now()
	if c.onlyCase != "" {
		if c.onlySection != m.Name {
			return
		}
		// replay: search for the recorded history is done by running the search itself
	}
	var mu sync.Mutex
	seen := map[[16]byte]struct{}{}
	var nodes []bnode
	hist := func(i int32) []Op {
		var rev []Op
		for i > 0 {
			rev = append(rev, m.Ops[nodes[i].op])
			i = nodes[i].parent
		}
		for a, b := 0, len(rev)-1; a < b; a, b = a+1, b-1 {
			rev[a], rev[b] = rev[b], rev[a]
		}
		return rev
	}
	en := m.Enabled
	if en == nil {
		en = func(s *SUT, o Op) bool { return s.Enabled(o) }
	}
	replay := func(h []Op) *SUT {
		atomic.AddInt64(&c.execs, 1)
		s := m.New()
		for _, o := range h {
			s.Apply(o)
		}
		return s
	}
	init := m.New()
	seen[init.Canon()] = struct{}{}
	nodes = append(nodes, bnode{-1, 0})
	if m.CheckNew != nil {
		if msg := runCase(func() { m.CheckNew(m.New(), nil) }); msg != "" {
			c.report(s.Name, "initial state", msg, "")
			return
		}
	}
	s.States = 1
	frontier := []int32{0}
	prev := 1
	for depth := 1; len(frontier) > 0; depth++ {
		if m.MaxDepth > 0 && depth > m.MaxDepth {
			s.Exhaustive = m.Bound != "" // exhaustive up to the stated depth
			break
		}
		if c.Done() {
			s.Exhaustive = false
			break
		}
		if m.MaxStates > 0 && depth > 2 {
			// levels are explored completely: stop before the level which would exceed the number of states
			if est := len(frontier) * len(frontier) / prev; int64(len(seen)+est) > m.MaxStates {
				s.Bound = fmt.Sprintf("all histories up to depth %d (complete levels)", depth-1)
				break
			}
		}
		if t := time.Since(t0); c.quick() && t > 60*time.Second {
			// what blows a closure up must not keep the check from its other spaces
			s.Bound = fmt.Sprintf("all histories up to depth %d (complete levels)", depth-1)
			break
		}
		prev = len(frontier)
		var next []int32
		c.Par(len(frontier), func(fi int) {
			id := frontier[fi]
			mu.Lock()
			h := hist(id)
			mu.Unlock()
			var base *SUT
			var opIdx []int
			if msg := runCase(func() {
				base = replay(h)
				for i, o := range m.Ops {
					if en(base, o) {
						opIdx = append(opIdx, i)
					}
				}
			}); msg != "" {
				c.report(s.Name, histStr(h), "replaying a prefix that succeeded before: "+msg, "")
				return
			}
			for n, i := range opIdx {
				o := m.Ops[i]
				full := append(append([]Op{}, h...), o)
				run := func() *SUT {
					x := base
					if n < len(opIdx)-1 || true {
						x = replay(h)
					}
					x.Apply(o)
					return x
				}
				var key [16]byte
				msg := runCase(func() {
					x := run()
					key = x.Canon()
					if m.Check != nil {
						m.Check(x, full)
					}
				})
				atomic.AddInt64(&s.Transitions, 1)
				if msg != "" {
					cnt := 1
					for r := 0; r < 4; r++ {
						if runCase(func() { x := run(); x.Canon(); m.Check(x, full) }) != "" {
							cnt++
						}
					}
					c.report(s.Name, histStr(full), msg, itoa(cnt)+" of 5 runs")
					return
				}
				mu.Lock()
				_, old := seen[key]
				var nid int32
				if !old {
					seen[key] = struct{}{}
					nid = int32(len(nodes))
					nodes = append(nodes, bnode{id, uint16(i)})
					next = append(next, nid)
				}
				mu.Unlock()
				if !old && m.CheckNew != nil {
					if msg := runCase(func() { x := run(); m.CheckNew(x, full) }); msg != "" {
						cnt := 1
						for r := 0; r < 4; r++ {
							if runCase(func() { x := run(); m.CheckNew(x, full) }) != "" {
								cnt++
							}
						}
						c.report(s.Name, histStr(full), msg, itoa(cnt)+" of 5 runs")
						return
					}
				}
			}
		})
		s.States = int64(len(seen))
		if len(next) > 0 {
			s.MaxDepth = depth
		}
		frontier = next
	}
	if len(nodes) > 1 {
		c.Sample(map[string]string{"section": m.Name, "history": histStr(hist(int32(len(nodes) - 1)))})
	}
}

func itoa(i int) string { return string(rune('0' + i)) }

// DFS runs all histories of the given operations up to the depth, without state matching. f is called after every
// operation
func (c *Ctx) DFS(name, bound string, ops []Op, depth int, mk func() *SUT, check func(s *SUT, h []Op)) {
	s, end := c.Begin(name, bound)
	defer end()
	s.MaxDepth = depth
	n := len(ops)
	// split on the first two operations
	c.Par(n*n, func(i int) {
		var rec func(h []Op)
		rec = func(h []Op) {
			if c.Done() {
				return
			}
			ok := false
			if !c.Case(s, histStr(h), func() {
				ok = false
				x := mk()
				for _, o := range h {
					if !x.Enabled(o) {
						return
					}
					x.Apply(o)
				}
				ok = true
				check(x, h)
			}) {
				return
			}
			atomic.AddInt64(&s.Transitions, 1)
			if !ok || len(h) >= depth {
				return
			}
			for _, o := range ops {
				rec(append(append([]Op{}, h...), o))
			}
		}
		rec([]Op{ops[i/n], ops[i%n]})
	})
}
