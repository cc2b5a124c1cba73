package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Section is one exhaustively explored space within a check
type Section struct {
	Name        string `json:"name"`
	Bound       string `json:"bound"`
	States      int64  `json:"states,omitempty"`
	Transitions int64  `json:"transitions,omitempty"`
	Cases       int64  `json:"cases,omitempty"`
	MaxDepth    int    `json:"max_depth,omitempty"`
	Exhaustive  bool   `json:"exhaustive"`
	WallS       float64
}

type violation struct {
	Section string `json:"section"`
	Case    string `json:"case"`
	Message string `json:"message"`
	Repro   string `json:"reproduced"`
}

// Ctx is the state of one run of one check
type Ctx struct {
	ID       string
	Tier     string
	Seed     int
	start    time.Time
	deadline time.Time
	workers  int

	states, transitions, cases, execs int64
	stop                              int32
	secStart, secCap                  int64 // MC_SECTION_MS: cut every section after this time (experiments only)
	timedOut, cut                     int32

	mu       sync.Mutex
	sections []*Section
	viol     []violation
	outcomes map[string]int64
	samples  []interface{}
	kf       []knownFinding
	kfHit    map[string]bool
	assume   []string

	onlySection, onlyCase string // replay filter

	distinct [64]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
}

type failure struct{ msg string }

// failf aborts the current case with a violation
func failf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

func (c *Ctx) quick() bool { return c.Tier != "thorough" }

func (c *Ctx) pick(quick, thorough int) int {
	if c.quick() {
		return quick
	}
	return thorough
}

// Done is true if exploration must end (violation found or out of time)
func (c *Ctx) Done() bool {
	if atomic.LoadInt32(&c.stop) != 0 {
		return true
	}
	if time.Now().After(c.deadline) {
		atomic.StoreInt32(&c.timedOut, 1)
		return true
	}
	if c.secCap > 0 {
		if t := atomic.LoadInt64(&c.secStart); t > 0 && time.Now().UnixNano()-t > c.secCap {
			atomic.StoreInt32(&c.cut, 1)
			return true
		}
	}
	return false
}

// Begin opens a new section; the returned function closes it. If skipped is true the section must not be run
func (c *Ctx) Begin(name, bound string) (*Section, func()) {
	s := &Section{Name: name, Bound: bound, Exhaustive: true}
	c.mu.Lock()
	c.sections = append(c.sections, s)
	c.mu.Unlock()
	t0 := time.Now()
	atomic.StoreInt64(&c.secStart, t0.UnixNano())
	if o := os.Getenv("MC_ONLY"); o != "" && !strings.Contains(name, o) {
		atomic.StoreInt64(&c.secStart, 1) // experiments only, with MC_SECTION_MS
	}
	return s, func() {
		s.WallS = float64(int(time.Since(t0).Seconds()*1000)) / 1000
		if c.Done() {
			s.Exhaustive = false
		}
		atomic.StoreInt64(&c.secStart, 0)
		if os.Getenv("MC_VERBOSE") != "" {
			fmt.Printf("# %-60s states=%d trans=%d cases=%d depth=%d exh=%v %.2fs\n", s.Name, s.States, s.Transitions, s.Cases, s.MaxDepth, s.Exhaustive, s.WallS)
		}
	}
}

// runCase runs f, recovering failures and panics of the code under test
func runCase(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				msg = fl.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return ""
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "/repo/") || strings.Contains(lines[i], "/verif/mc/") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// Case runs one case of a section. The function must be re-runnable
func (c *Ctx) Case(s *Section, id string, f func()) bool {
	if c.onlyCase != "" && (c.onlySection != s.Name || c.onlyCase != id) {
		return true
	}
	n0 := atomic.AddInt64(&s.Cases, 1)
	atomic.AddInt64(&c.cases, 1)
	h := fnv.New64a()
	io.WriteString(h, s.Name)
	io.WriteString(h, "\x00")
	io.WriteString(h, id)
	sum := h.Sum64()
	sh := &c.distinct[sum%64]
	sh.mu.Lock()
	if sh.m == nil {
		sh.m = map[uint64]struct{}{}
	}
	sh.m[sum] = struct{}{}
	sh.mu.Unlock()
	if n0 == 3 {
		c.Sample(map[string]string{"section": s.Name, "case": id})
	}
	msg := runCase(f)
	if msg == "" {
		return true
	}
	n := 1
	for i := 0; i < 4; i++ {
		if runCase(f) != "" {
			n++
		}
	}
	c.report(s.Name, id, msg, fmt.Sprintf("%d of 5 runs", n))
	return false
}

func (c *Ctx) report(section, id, msg, repro string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(msg) > 6000 {
		msg = msg[:4000] + " ... " + msg[len(msg)-1500:]
	}
	c.viol = append(c.viol, violation{section, id, msg, repro})
	atomic.StoreInt32(&c.stop, 1)
}

// Par runs f(0..n-1) on all cores
func (c *Ctx) Par(n int, f func(i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	w := c.workers
	if w > n {
		w = n
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Done() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Outcome counts distinct observed outcomes, to make vacuous explorations visible
func (c *Ctx) Outcome(o string) {
	c.mu.Lock()
	c.outcomes[o]++
	c.mu.Unlock()
}

func (c *Ctx) Sample(v interface{}) {
	c.mu.Lock()
	if len(c.samples) < 8 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// ---- known findings

type knownFinding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Input    string `json:"input"` // identifies the specific input or history
	What     string `json:"what"`
}

func loadKnown(path, prop string) []knownFinding {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(data, &f); err != nil {
		fmt.Printf("error: cannot parse %s: %v\n", path, err)
		os.Exit(2)
	}
	var ret []knownFinding
	for _, k := range f.Findings {
		if k.Property == prop {
			ret = append(ret, k)
		}
	}
	return ret
}

// Known reports that the given input fails. If it is listed, prints KNOWN-FINDING once and returns true
func (c *Ctx) Known(input string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.kf {
		if k.Input == input {
			c.kfHit[k.ID] = true
			return true
		}
	}
	return false
}

// ---- evidence

func (c *Ctx) finish(root, level string) int {
	c.flushOutcomes()
	wall := time.Since(c.start).Seconds()
	exh := atomic.LoadInt32(&c.timedOut) == 0 && atomic.LoadInt32(&c.cut) == 0
	var st, trn int64
	for _, s := range c.sections {
		st += s.States
		trn += s.Transitions
		if !s.Exhaustive {
			exh = false
		}
	}
	type oc struct {
		O string `json:"outcome"`
		N int64  `json:"count"`
	}
	var ocs []oc
	for k, v := range c.outcomes {
		ocs = append(ocs, oc{k, v})
	}
	sort.Slice(ocs, func(i, j int) bool { return ocs[i].O < ocs[j].O })
	nOut := len(ocs)
	if len(ocs) > 60 {
		ocs = ocs[:60]
	}
	if c.samples == nil {
		c.samples = []interface{}{}
	}
	cov := map[string]interface{}{
		"sections":          c.sections,
		"outcomes":          ocs,
		"distinct_outcomes": nOut,
		"samples":           c.samples,
		"exhaustive":        exh,
	}
	switch level {
	case "model_checking":
		cov["states"] = st
		cov["transitions"] = trn
		cov["traces_validated_against_impl"] = c.execs + c.cases
		cov["enumerated_histories"] = c.cases
		cov["explanation"] = "the explored transitions are calls of the real code; every explored trace is an execution of the implementation compared step by step with the reference model"
	default:
		nd := st
		for i := range c.distinct {
			nd += int64(len(c.distinct[i].m))
		}
		ev := trn
		if ev < c.cases {
			ev = c.cases
		}
		cov["evaluations"] = ev
		cov["distinct_nontrivial"] = nd
		cov["rule"] = "evaluations: single executions of the code under test judged by the oracle (operations, decodings, validations). distinct_nontrivial: distinct enumerated cases (section and input, counted as a set of hashes) plus distinct reached states; a case groups the evaluations over one input or state, and cases whose input the code under test ignores are not generated"
	}
	assume := c.assume
	if assume == nil {
		assume = []string{}
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": level,
		"coverage": cov, "assumptions": assume, "wall_s": float64(int(wall*1000)) / 1000, "violations": len(c.viol),
	}
	dir := filepath.Join(root, "evidence")
	_ = os.MkdirAll(dir, 0755)
	data, err := json.MarshalIndent(ev, "", " ")
	if err == nil && c.onlyCase == "" {
		err = os.WriteFile(filepath.Join(dir, c.ID+".json"), append(data, '\n'), 0644)
	}
	if err != nil {
		fmt.Printf("error: writing evidence: %v\n", err)
		return 2
	}
	fmt.Printf("%s tier=%s states=%d transitions=%d cases=%d executions=%d exhaustive=%v distinct_outcomes=%d wall=%.1fs\n",
		c.ID, c.Tier, st, trn, c.cases, c.execs, exh, nOut, wall)
	for _, k := range c.kf {
		if c.kfHit[k.ID] {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, k.ID, k.What)
		} else if c.onlyCase == "" && exh {
			fmt.Printf("note: known finding %s of property %s did not occur in this run\n", k.ID, c.ID)
		}
	}
	if len(c.viol) > 0 {
		rp := filepath.Join(dir, c.ID+".replay.json")
		v := c.viol[0]
		data, _ := json.MarshalIndent(map[string]interface{}{
			"property": c.ID, "tier": c.Tier, "section": v.Section, "case": v.Case, "message": v.Message, "reproduced": v.Repro,
			"replay_cmd": "bash /verif/check.sh " + c.ID + " replay " + rp,
		}, "", " ")
		_ = os.WriteFile(rp, append(data, '\n'), 0644)
		fmt.Printf("violation in section %q\n case: %s\n %s\n reproduced: %s\n", v.Section, v.Case, v.Message, v.Repro)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
		return 1
	}
	return 0
}

func hx(b []byte) string {
	if b == nil {
		return "nil"
	}
	return hex.EncodeToString(b)
}

func nworkers() int {
	n := runtime.GOMAXPROCS(0)
	if n > 8 {
		n = 8
	}
	return n
}

var fastOutcomes struct {
	mu sync.RWMutex
	m  map[string]*int64
}

// outcomeFast counts an outcome from a hot loop
func (c *Ctx) outcomeFast(o string) {
	f := &fastOutcomes
	f.mu.RLock()
	p := f.m[o]
	f.mu.RUnlock()
	if p == nil {
		f.mu.Lock()
		if f.m == nil {
			f.m = map[string]*int64{}
		}
		if f.m[o] == nil {
			f.m[o] = new(int64)
		}
		p = f.m[o]
		f.mu.Unlock()
	}
	atomic.AddInt64(p, 1)
}

func (c *Ctx) flushOutcomes() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for k, v := range fastOutcomes.m {
		c.outcomes[k] += *v
	}
	fastOutcomes.m = nil
}
