package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"time"
)

type check struct {
	level string
	run   func(*Ctx)
}

var checks = map[string]check{}

func register(id, level string, run func(*Ctx)) { checks[id] = check{level, run} }

const (
	quickDeadline    = 420 * time.Second
	thoroughDeadline = 40 * time.Minute
	hangGrace        = 200 * time.Second
	memLimit         = 20 << 30
)

// usage: mc <root> <ID> <tier> [replay file]
func main() {
	if len(os.Args) < 4 {
		fmt.Println("usage: mc <verif root> <ID> quick|thorough [replay-file]")
		os.Exit(2)
	}
	root, id, tier := os.Args[1], os.Args[2], os.Args[3]
	ck, ok := checks[id]
	if !ok {
		fmt.Printf("unknown check %s\n", id)
		os.Exit(2)
	}
	if os.Getenv("MC_CHILD") == "" {
		os.Exit(parent(root, id, tier))
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(8 << 30)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Ctx{ID: id, Tier: tier, Seed: seed, start: time.Now(), workers: nworkers(),
		outcomes: map[string]int64{}, kfHit: map[string]bool{}}
	c.deadline = c.start.Add(quickDeadline)
	if tier == "thorough" {
		c.deadline = c.start.Add(thoroughDeadline)
	}
	if ms, _ := strconv.Atoi(os.Getenv("MC_SECTION_MS")); ms > 0 {
		c.secCap = int64(ms) * int64(time.Millisecond)
	}
	c.kf = loadKnown(filepath.Join(root, "known_findings.json"), id)
	if len(os.Args) > 4 {
		var r struct{ Tier, Section, Case string }
		data, err := os.ReadFile(os.Args[4])
		if err == nil {
			err = json.Unmarshal(data, &r)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		c.onlySection, c.onlyCase = r.Section, r.Case
		if r.Tier != "" {
			c.Tier = r.Tier
		}
	}
	ck.run(c)
	os.Exit(c.finish(root, ck.level))
}

// parent runs the exploration in a child process, so that a fatal error of the code under test
// (stack overflow, concurrent map access, memory exhaustion, endless loop) is reported as a violation
func parent(root, id, tier string) int {
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "MC_CHILD=1")
	var errb bytes.Buffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = &limitedWriter{&errb, 1 << 20}
	if err := cmd.Start(); err != nil {
		fmt.Println(err)
		return 2
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	limit := quickDeadline + hangGrace
	if tier == "thorough" {
		limit = thoroughDeadline + hangGrace
	}
	t0 := time.Now()
	why := ""
	tick := time.NewTicker(300 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-done:
			code := cmd.ProcessState.ExitCode()
			if why == "" && (code == 0 || code == 1 || code == 2 && bytes.Contains(errb.Bytes(), []byte("harness error"))) {
				os.Stderr.Write(errb.Bytes())
				return code
			}
			if why == "" {
				why = fmt.Sprintf("exploration ended by a fatal error, exit code %d", code)
			}
			rp := filepath.Join(root, "evidence", id+".replay.json")
			e := errb.Bytes()
			if len(e) > 6000 {
				e = e[:6000]
			}
			data, _ := json.MarshalIndent(map[string]interface{}{"property": id, "tier": tier, "message": why, "stderr": string(e)}, "", " ")
			_ = os.MkdirAll(filepath.Dir(rp), 0755)
			_ = os.WriteFile(rp, data, 0644)
			ev, _ := json.MarshalIndent(map[string]interface{}{"property": id, "tier": tier, "seed": 1, "level": checks[id].level,
				"coverage": map[string]interface{}{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []string{}, "explanation": why, "exhaustive": false},
				"wall_s":   time.Since(t0).Seconds(), "violations": 1}, "", " ")
			_ = os.WriteFile(filepath.Join(root, "evidence", id+".json"), ev, 0644)
			fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", why, e, id, rp)
			return 1
		case <-tick.C:
			if time.Since(t0) > limit && why == "" {
				why = "a single case did not terminate"
				_ = cmd.Process.Kill()
			}
			if rss(cmd.Process.Pid) > memLimit && why == "" {
				why = "memory exhausted"
				_ = cmd.Process.Kill()
			}
		}
	}
}

func rss(pid int) int64 {
	data, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := bytes.Fields(data)
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return n * int64(os.Getpagesize())
}

type limitedWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}
