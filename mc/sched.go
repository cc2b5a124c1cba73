package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"
	"time"
)

// A controlled scheduler for stateless exploration of interleavings. Threads are goroutines, one of which runs at a
// time. A thread gives up control at its yield points (accesses to the stores, API calls). Control is handed over by
// plain memory accesses of functions without race instrumentation, so that the scheduler itself makes no
// happens-before edges between the threads: the race detector sees the threads as if they were not synchronized at
// all, in each of the explored schedules.

const maxThreads = 4

const (
	thRunning = iota
	thWaiting
	thDone
)

type sched struct {
	n       int
	state   [maxThreads]int32
	gid     [maxThreads]int64
	grant   [maxThreads]chan struct{}
	event   chan struct{}
	waiting int // number of threads which are blocked by another one
}

//go:norace
//go:noinline
func (s *sched) setState(i int, x int32) { s.state[i] = x }

//go:norace
//go:noinline
func (s *sched) getState(i int) int32 { return s.state[i] }

//go:norace
//go:noinline
func (s *sched) setGid(i int, g int64) { s.gid[i] = g }

// self is the number of the calling thread, -1 if it is none of them
//
//go:norace
//go:noinline
func (s *sched) self() int {
	g := goid()
	for i := 0; i < s.n; i++ {
		if s.gid[i] == g {
			return i
		}
	}
	return -1
}

//go:norace
//go:noinline
func goid() int64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	var g int64
	for i := len("goroutine "); i < n && buf[i] >= '0' && buf[i] <= '9'; i++ {
		g = g*10 + int64(buf[i]-'0')
	}
	return g
}

// pause waits for the next turn of the thread
//
//go:norace
//go:noinline
func (s *sched) pause(i int) {
	raceDisable()
	s.state[i] = thWaiting
	s.event <- struct{}{}
	<-s.grant[i]
	raceEnable()
}

//go:norace
//go:noinline
func (s *sched) finish(i int) {
	raceDisable()
	s.gid[i] = -1
	s.state[i] = thDone
	s.event <- struct{}{}
	raceEnable()
}

//go:norace
//go:noinline
func (s *sched) resume(i int) {
	raceDisable()
	s.state[i] = thRunning
	s.grant[i] <- struct{}{}
	raceEnable()
}

// Yield is a scheduling point of the calling thread
func (s *sched) Yield() {
	if i := s.self(); i >= 0 {
		s.pause(i)
	}
}

// settle waits until no thread is running: each waits for its turn, is done or is blocked by another one. It does not
// depend on the time: a thread counts as blocked when the runtime says so
//
//go:norace
//go:noinline
func (s *sched) settle() {
	raceDisable()
	defer raceEnable()
	seen := 0
	for n := 0; ; n++ {
		running := 0
		for i := 0; i < s.n; i++ {
			if s.state[i] == thRunning {
				running++
			}
		}
		if running == 0 {
			return
		}
		if s.waiting == 0 && n < 1000000 {
			select {
			case <-s.event:
				continue
			default:
			}
			t := time.NewTimer(20 * time.Millisecond)
			select {
			case <-s.event:
				t.Stop()
				continue
			case <-t.C:
			}
		}
		// maybe blocked: when it is seen in several states in a row. The runtime lets goroutines wait for a short time
		// for itself, too
		st := goroutineStates()
		s.waiting = 0
		for i := 0; i < s.n; i++ {
			if s.state[i] == thRunning && st[s.gid[i]] {
				s.waiting++
			}
		}
		if s.waiting != running {
			seen = 0
		} else if seen++; seen >= 5 {
			return
		}
		if s.waiting > 0 {
			select {
			case <-s.event:
				seen = 0
			case <-time.After(2 * time.Millisecond):
			}
		}
	}
}

// goroutineStates tells which goroutines are blocked in a lock or a channel operation
func goroutineStates() map[int64]bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	ret := map[int64]bool{}
	for _, l := range bytes.Split(buf, []byte("\n")) {
		var g int64
		if !bytes.HasPrefix(l, []byte("goroutine ")) {
			continue
		}
		if _, err := fmt.Sscanf(string(l), "goroutine %d [", &g); err != nil {
			continue
		}
		st := l[bytes.IndexByte(l, '[')+1:]
		// not "semacquire", in which the runtime waits for the other reader of all stacks, before a garbage collection
		for _, p := range []string{"sync.", "chan ", "select"} {
			if bytes.HasPrefix(st, []byte(p)) {
				ret[g] = true
			}
		}
	}
	return ret
}

type choice struct{ chosen, n int }

// runSchedule runs the threads; the decisions follow the prefix, then take the first possibility: go on with the
// running thread. It returns the decisions made and the results of the threads
func runSchedule(s *sched, threads []func() string, prefix []choice, bound int) ([]choice, []string) {
	n := len(threads)
	s.n = n
	s.event = make(chan struct{}, 1000)
	res := make([]string, n)
	var wg sync.WaitGroup
	for i := range threads {
		s.setState(i, thRunning)
		s.grant[i] = make(chan struct{}, 1)
	}
	for i := range threads {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.setGid(i, goid())
			s.pause(i)
			msg := runCase(func() { res[i] = threads[i]() })
			if msg != "" {
				res[i] = "failed: " + msg
			}
			s.finish(i)
		}()
	}
	s.settle()
	var made []choice
	last, preempt, stuck := -1, 0, 0
	for {
		var en []int
		if last >= 0 && s.getState(last) == thWaiting {
			en = append(en, last)
		}
		done := 0
		for i := 0; i < n; i++ {
			switch s.getState(i) {
			case thWaiting:
				if i != last {
					en = append(en, i)
				}
			case thDone:
				done++
			}
		}
		if done == n {
			break
		}
		if len(en) == 0 {
			if stuck++; stuck < 200 {
				time.Sleep(10 * time.Millisecond)
				s.settle()
				continue
			}
			failf("deadlock: the threads block each other")
		}
		stuck = 0
		m := len(en)
		if bound >= 0 && preempt >= bound && en[0] == last {
			m = 1
		}
		c := choice{0, m}
		if len(made) < len(prefix) {
			if prefix[len(made)].n != m {
				panic(fmt.Sprintf("harness error: the schedule is not reproducible: %d possibilities at step %d, before %d", m, len(made), prefix[len(made)].n))
			}
			c.chosen = prefix[len(made)].chosen
		}
		made = append(made, c)
		if en[0] == last && c.chosen > 0 {
			preempt++
		}
		last = en[c.chosen]
		s.resume(last)
		s.settle()
	}
	wg.Wait()
	return made, res
}

// Explore runs all schedules with the given number of preemptions (-1: any). mk makes fresh threads for every
// schedule. Every thread must have the result it has alone
func (c *Ctx) Explore(name string, bound int, maxSchedules int64, mk func(s *sched) []func() string) {
	b := "all interleavings at the store accesses and API calls"
	if bound >= 0 {
		b = fmt.Sprintf("all interleavings at the store accesses and API calls with up to %d preemptions", bound)
	}
	sec, end := c.Begin("schedules "+name, b+"; race detector on in every one")
	defer end()
	var alone []string
	var prefix []choice
	for sec.States < maxSchedules || maxSchedules == 0 {
		if c.Done() {
			sec.Exhaustive = false
			return
		}
		var made []choice
		id := ""
		for _, p := range prefix {
			id += fmt.Sprintf("%d/%d ", p.chosen, p.n)
		}
		if !c.Case(sec, "schedule "+id, func() {
			var res []string
			s := &sched{}
			made, res = runSchedule(s, mk(s), prefix, bound)
			if alone == nil {
				// alone after the first schedule: nothing is prepared for it
				x := &sched{}
				for _, t := range mk(x) {
					alone = append(alone, t())
				}
			}
			for i, r := range res {
				if r != alone[i] {
					failf("thread %d has the result\n%s\nalone it has\n%s", i, r, alone[i])
				}
			}
		}) {
			return
		}
		sec.States++
		sec.Transitions += int64(len(made))
		if len(made) > sec.MaxDepth {
			sec.MaxDepth = len(made)
		}
		// the next one
		i := len(made) - 1
		for i >= 0 && made[i].chosen+1 >= made[i].n {
			i--
		}
		if i < 0 {
			return
		}
		prefix = append([]choice{}, made[:i]...)
		prefix = append(prefix, choice{made[i].chosen + 1, made[i].n})
	}
	sec.Exhaustive = false
	sec.Bound += " (capped by the number of schedules)"
}
