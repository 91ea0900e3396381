package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type shard struct {
	s      *sub
	idx    int
	checks int
	res    *result
	exit   int
	stderr string
	wall   float64
}

func (sh *shard) trace(dir string) string {
	return filepath.Join(dir, fmt.Sprintf("trace-%s-%d.json", sh.s.Name, sh.idx))
}

func shardSeed(seed uint64, s *sub, idx int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, s.Prop, s.Name, idx)
	v := h.Sum64()
	// spread: rapid walks seed+0, +1, +3, +6, ...
	v ^= v >> 33
	v *= 0xff51afd7ed558ccd
	v ^= v >> 33
	if v == 0 {
		v = 1
	}
	return v
}

func runWorker(self, dir string, sh *shard, seed uint64, trace string) {
	out := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", sh.s.Prop, sh.s.Name, sh.idx))
	os.Remove(out)
	args := []string{"worker", sh.s.Prop, sh.s.Name, strconv.Itoa(sh.checks), strconv.FormatUint(shardSeed(seed, sh.s, sh.idx), 10), out, trace}
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	var eb strings.Builder
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	t0 := time.Now()
	err := cmd.Run()
	sh.wall = time.Since(t0).Seconds()
	sh.exit = 0
	if err != nil {
		sh.exit = cmd.ProcessState.ExitCode()
		if sh.exit == 0 {
			sh.exit = 3
		}
	}
	sh.stderr = eb.String()
	if len(sh.stderr) > 4000 {
		sh.stderr = sh.stderr[:4000]
	}
	sh.res = nil
	if b, err := os.ReadFile(out); err == nil {
		var r result
		if json.Unmarshal(b, &r) == nil {
			sh.res = &r
		}
	}
}

type knownFinding struct {
	Status   string          `json:"status"` // "known" or "fixed"
	Property string          `json:"property"`
	ID       string          `json:"id"`
	What     string          `json:"what"`
	Commit   string          `json:"commit,omitempty"`
	Sub      string          `json:"sub,omitempty"`
	Case     json.RawMessage `json:"case,omitempty"`
}

func loadKnown(root string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "harness: known_findings.json:", err)
		os.Exit(3)
	}
	return f.Findings
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check PROP TIER | worker ... | replay FILE | list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "list":
		for _, s := range subs {
			fmt.Printf("%s %s quick=%d thorough=%d\n", s.Prop, s.Name, s.Quick, s.Thorough)
		}
	case "worker":
		s := findSub(os.Args[2], os.Args[3])
		n, _ := strconv.Atoi(os.Args[4])
		seed, _ := strconv.ParseUint(os.Args[5], 10, 64)
		trace := ""
		if len(os.Args) > 7 {
			trace = os.Args[7]
		}
		worker(s, n, seed, os.Args[6], trace)
	case "replay":
		os.Exit(doReplay(os.Args[2]))
	case "check":
		only := ""
		if len(os.Args) > 4 {
			only = os.Args[4]
		}
		os.Exit(check(os.Args[2], os.Args[3], only))
	default:
		os.Exit(3)
	}
}

// fatalSignature: the Go runtime ended the worker because of what the case did.
func runtimeFatal(stderr string) bool {
	return strings.Contains(stderr, "fatal error: stack overflow") || strings.Contains(stderr, "stack exceeds") ||
		strings.Contains(stderr, "fatal error: concurrent map") || strings.Contains(stderr, "all goroutines are asleep") ||
		dataRace(stderr) != ""
}

// dataRace: the race detector stopped the process at a race within the library.
// Which functions, or "".
func dataRace(stderr string) string {
	i := strings.Index(stderr, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	var at []string
	for _, part := range strings.SplitN(stderr[i:], "\n\n", 3)[:] {
		if strings.HasPrefix(part, "Goroutine ") || len(at) == 2 {
			break
		}
		for _, l := range strings.Split(part, "\n") {
			if l = strings.TrimSpace(l); strings.Contains(l, "jtejido/linear.") {
				at = append(at, l[strings.Index(l, "linear."):])
				break
			}
		}
	}
	if len(at) == 0 {
		return ""
	}
	return "data race between " + strings.Join(at, " and ")
}

func check(prop, tier, only string) int {
	start := time.Now()
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "."
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		if n, err := strconv.ParseUint(v, 10, 64); err == nil {
			seed = n
		} else {
			h := fnv.New64a()
			h.Write([]byte(v))
			seed = h.Sum64()
		}
	}
	scale := 1.0
	if v := os.Getenv("VERIF_SCALE"); v != "" {
		scale, _ = strconv.ParseFloat(v, 64)
	}
	dir, err := os.MkdirTemp("", "verif-run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)

	var mine []*sub
	for _, s := range subs {
		if s.Prop == prop && (only == "" || s.Name == only) {
			mine = append(mine, s)
		}
	}
	if len(mine) == 0 {
		fmt.Fprintln(os.Stderr, "harness: no checks for", prop)
		return 3
	}

	// Saved cases first: committed regression cases and fixed / known findings.
	known := loadKnown(root)
	exit := 0
	var violations []string
	nSaved := 0
	for _, k := range known {
		if k.Property != prop || k.Case == nil || k.Sub == "" {
			continue
		}
		s := findSub(k.Property, k.Sub)
		if s == nil {
			fmt.Fprintf(os.Stderr, "harness: known finding %s names unknown sub-check %s\n", k.ID, k.Sub)
			return 3
		}
		nSaved++
		f := filepath.Join(dir, "saved-"+k.ID+".json")
		b, _ := json.Marshal(replay{Property: prop, Sub: k.Sub, Case: k.Case, Error: k.What})
		os.WriteFile(f, b, 0o644)
		out, err := exec.Command(self, "replay", f).CombinedOutput()
		code := 0
		if err != nil {
			code = -1
			if ee, ok := err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
		}
		switch {
		case code == 0:
		case k.Status == "known":
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, k.ID, k.What)
		case code == 1 || code == exitHang || runtimeFatal(string(out)):
			p := saveReplay(root, prop, k.Sub, k.Case, firstLine(string(out)), "saved-"+k.ID)
			fmt.Printf("VIOLATION property=%s replay=%s\n  repaired defect %s is back: %s\n", prop, p, k.ID, strings.TrimSpace(string(out)))
			violations = append(violations, p)
		default:
			fmt.Fprintf(os.Stderr, "harness: replay of saved case %s ended with %d: %s\n", k.ID, code, out)
			exit = 3
		}
	}
	if len(violations) == 0 {
		for _, k := range known {
			if k.Property == prop && k.Status == "known" && k.Case == nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, k.ID, k.What)
			}
		}
	}

	ncpu := runtime.NumCPU()
	if ncpu > 8 {
		ncpu = 8
	}
	var shards []*shard
	for _, s := range mine {
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
		}
		n = int(float64(n) * scale)
		if n < 1 {
			n = 1
		}
		k := ncpu
		if n < 8*k {
			k = (n + 7) / 8
		}
		for i := 0; i < k; i++ {
			c := n / k
			if i < n%k {
				c++
			}
			shards = append(shards, &shard{s: s, idx: i, checks: c})
		}
	}
	jobs := make(chan *shard)
	var wg sync.WaitGroup
	deadline := start.Add(820 * time.Second)
	if tier == "thorough" {
		deadline = start.Add(6 * time.Hour)
	}
	var timedOut bool
	var mu sync.Mutex
	for i := 0; i < ncpu; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for sh := range jobs {
				if time.Now().After(deadline) {
					mu.Lock()
					timedOut = true
					mu.Unlock()
					continue
				}
				trace := ""
				if raceDetector { // a race need not show again
					trace = sh.trace(dir)
				}
				runWorker(self, dir, sh, seed, trace)
			}
		}()
	}
	for _, sh := range shards {
		jobs <- sh
	}
	close(jobs)
	wg.Wait()

	type agg struct {
		evals  int
		hashes map[uint64]struct{}
		labels map[string]int
		wall   float64
	}
	per := map[string]*agg{}
	var samples []interface{}
	reported := map[string]bool{}
	for _, sh := range shards {
		a := per[sh.s.Name]
		if a == nil {
			a = &agg{hashes: map[uint64]struct{}{}, labels: map[string]int{}}
			per[sh.s.Name] = a
		}
		a.wall += sh.wall
		if sh.res != nil {
			a.evals += sh.res.Evals
			for _, h := range sh.res.Hashes {
				a.hashes[h] = struct{}{}
			}
			for l, n := range sh.res.Labels {
				a.labels[l] += n
			}
			if sh.idx == 0 {
				for i, smp := range sh.res.Samples {
					if i >= 2 {
						break
					}
					samples = append(samples, map[string]interface{}{"sub": sh.s.Name, "case": smp})
				}
			}
		}
		report := func(c json.RawMessage, msg string) {
			if reported[sh.s.Name] {
				return
			}
			reported[sh.s.Name] = true
			p := saveReplay(root, prop, sh.s.Name, c, msg, fmt.Sprintf("seed%d", seed))
			fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s\n", prop, p, sh.s.Name, msg)
			violations = append(violations, p)
		}
		switch {
		case sh.res != nil && sh.res.Failure != nil:
			// confirm in a fresh process, without rapid
			report(sh.res.Failure.Case, sh.res.Failure.Err)
		case sh.exit == exitHang && sh.res != nil && sh.res.Hang != nil:
			f := filepath.Join(dir, "hang.json")
			b, _ := json.Marshal(replay{Property: prop, Sub: sh.s.Name, Case: sh.res.Hang})
			os.WriteFile(f, b, 0o644)
			if !reported[sh.s.Name] {
				err := exec.Command(self, "replay", f).Run()
				code := 0
				if ee, ok := err.(*exec.ExitError); ok {
					code = ee.ExitCode()
				}
				if code == exitHang || code == 1 {
					report(sh.res.Hang, sh.res.Why+", twice")
				} else {
					fmt.Fprintf(os.Stderr, "harness: %s: a case once, but not again, %s\n", sh.s.Name, sh.res.Why)
					exit = 3
				}
			}
		case sh.exit != 0 && runtimeFatal(sh.stderr):
			if reported[sh.s.Name] {
				break
			}
			if b, err := os.ReadFile(sh.trace(dir)); raceDetector && err == nil {
				msg := dataRace(sh.stderr)
				if msg == "" {
					msg = "fatal: " + firstLine(sh.stderr)
				}
				report(b, msg)
				break
			}
			tr := filepath.Join(dir, "trace.json")
			first := sh.stderr
			runWorker(self, dir, sh, seed, tr)
			b, err := os.ReadFile(tr)
			if err == nil && sh.exit != 0 && runtimeFatal(sh.stderr) {
				report(b, "fatal: "+firstLine(first))
			} else {
				fmt.Fprintf(os.Stderr, "harness: %s: worker died and the death did not repeat: %s\n", sh.s.Name, first)
				exit = 3
			}
		case sh.res == nil || sh.exit != 0:
			if !timedOut {
				fmt.Fprintf(os.Stderr, "harness: %s shard %d ended with %d: %s\n", sh.s.Name, sh.idx, sh.exit, sh.stderr)
			}
			exit = 3
		case sh.res.Problem != "":
			fmt.Fprintf(os.Stderr, "harness: %s: %s\n", sh.s.Name, sh.res.Problem)
			exit = 3
		}
	}
	if timedOut {
		fmt.Fprintln(os.Stderr, "harness: time budget exceeded; inconclusive")
		exit = 3
	}

	evals, distinct := 0, 0
	subsOut := map[string]interface{}{}
	var rules []string
	var names []string
	for n := range per {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		a := per[n]
		evals += a.evals
		distinct += len(a.hashes)
		subsOut[n] = map[string]interface{}{
			"evaluations": a.evals, "distinct_nontrivial": len(a.hashes), "classes": a.labels, "worker_seconds": round2(a.wall),
		}
		rules = append(rules, n+": "+findSub(prop, n).Rule)
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": int64(seed & 0x7fffffffffffffff), "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": distinct,
			"rule":    "Cases are drawn by rapid generators (case counts fixed per tier, seed from VERIF_SEED); distinct by the hash of the serialised case. Per sub-check: " + strings.Join(rules, " | "),
			"samples": samples, "sub_checks": subsOut, "race_detector": raceDetector, "saved_cases_replayed": nSaved,
		},
		"assumptions": []string{"IEEE-754 binary64 arithmetic; the oracles in /verif/harness (reference model, exact integer arithmetic, backward-error bounds stated in DESIGN.md) are right"},
		"wall_s":      round2(time.Since(start).Seconds()),
		"violations":  len(violations),
	}
	if only == "" && scale == 1.0 {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			return 3
		}
	}
	if os.Getenv("VERIF_VERBOSE") != "" {
		b, _ := json.MarshalIndent(subsOut, "", " ")
		fmt.Println(string(b))
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", prop, tier, seed, evals, distinct, len(violations), time.Since(start).Seconds())
	if len(violations) > 0 {
		return 1
	}
	return exit
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func saveReplay(root, prop, sub string, c json.RawMessage, msg, tag string) string {
	d := filepath.Join(root, "replays")
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, fmt.Sprintf("%s-%s-%s.json", prop, sub, tag))
	b, _ := json.MarshalIndent(replay{Property: prop, Sub: sub, Error: msg, Case: c}, "", " ")
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
	}
	if abs, err := filepath.Abs(p); err == nil {
		return abs
	}
	return p
}
