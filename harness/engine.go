package main

// Engine: registration of sub-checks, the worker process that drives rapid,
// and the driver that spreads sub-checks over worker processes.

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs is what a check reports about one case besides pass/fail.
type Obs struct {
	nontrivial bool
	labels     []string
}

func (o *Obs) NonTrivial(b bool) {
	if b {
		o.nontrivial = true
	}
}
func (o *Obs) Label(s string)                    { o.labels = append(o.labels, s) }
func (o *Obs) Labelf(f string, a ...interface{}) { o.labels = append(o.labels, fmt.Sprintf(f, a...)) }
func (o *Obs) LabelIf(b bool, s string) {
	if b {
		o.labels = append(o.labels, s)
	}
}

type sub struct {
	Prop, Name      string
	Rule            string
	Quick, Thorough int
	gen             func(t *rapid.T) (interface{}, error) // generates a case
	decode          func(b []byte) (interface{}, error)
	run             func(c interface{}, o *Obs) error
}

var subs []*sub
var propOrder []string

// quickFactor scales the registered case counts so that a quick run takes about
// 10 to 20 s on 8 idle processors (5 where nothing is said).
var quickFactor = map[string]int{"C01": 100, "C02": 8, "C03": 4, "C04": 3, "C05": 30, "C06": 6, "C07": 4, "C08": 20, "C09": 12, "C10": 16, "C11": 8, "C12": 8, "C13": 6, "C14": 2, "C15": 8, "C16": 8, "C17": 3, "C18": 4, "C20": 4, "C21": 1, "C22": 4, "C23": 4, "C24": 8, "C25": 6, "C26": 6, "C27": 8, "C28": 8, "C30": 8, "C31": 5}

// Register adds one generated check of a property. quick / thorough are the
// numbers of generated cases per tier, before quickFactor.
func Register[C any](prop, name, rule string, quick, thorough int, gen func(t *rapid.T) C, check func(c C, o *Obs) error) {
	seen := false
	for _, p := range propOrder {
		if p == prop {
			seen = true
		}
	}
	if !seen {
		propOrder = append(propOrder, prop)
	}
	f, ok := quickFactor[prop]
	if !ok {
		f = 5
	}
	quick, thorough = quick*f, thorough*f*6
	subs = append(subs, &sub{
		Prop: prop, Name: name, Rule: rule, Quick: quick, Thorough: thorough,
		gen: func(t *rapid.T) (interface{}, error) { return gen(t), nil },
		decode: func(b []byte) (interface{}, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		run: func(c interface{}, o *Obs) error { return check(c.(C), o) },
	})
}

func findSub(prop, name string) *sub {
	for _, s := range subs {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

// runCase executes the check on a case; a panic that the check did not expect
// is a failure of the property.
func runCase(s *sub, c interface{}, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				panic(he)
			}
			err = fmt.Errorf("unexpected panic: %v%s", r, panicSite())
		}
	}()
	return s.run(c, o)
}

// harnessError marks an impossible situation in the harness itself: it is an
// error of the check, never a violation.
type harnessError string

func hbug(f string, a ...interface{}) { panic(harnessError(fmt.Sprintf(f, a...))) }

// panicSite names the innermost frames of the library under test.
func panicSite() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "jtejido/linear.") {
			return fmt.Sprintf(" [in %s]", f.Function[strings.Index(f.Function, "linear."):])
		}
		if !more {
			return ""
		}
	}
}

type failure struct {
	Case json.RawMessage `json:"case"`
	Err  string          `json:"error"`
}

type result struct {
	Evals      int               `json:"evals"`
	NonTrivial int               `json:"nontrivial"`
	Labels     map[string]int    `json:"labels"`
	Hashes     []uint64          `json:"hashes"`
	Samples    []json.RawMessage `json:"samples"`
	Failure    *failure          `json:"failure,omitempty"`
	Hang       json.RawMessage   `json:"hang,omitempty"`
	Why        string            `json:"why,omitempty"`
	Problem    string            `json:"problem,omitempty"`
}

// ---- worker ---------------------------------------------------------------

type workerTB struct {
	name   string
	failed bool
	log    []string
}

func (w *workerTB) Helper()      {}
func (w *workerTB) Name() string { return w.name }
func (w *workerTB) Logf(f string, a ...any) {
	if len(w.log) < 50 {
		w.log = append(w.log, fmt.Sprintf(f, a...))
	}
}
func (w *workerTB) Log(a ...any)              { w.Logf("%s", fmt.Sprint(a...)) }
func (w *workerTB) Skipf(f string, a ...any)  { runtime.Goexit() }
func (w *workerTB) Skip(a ...any)             { runtime.Goexit() }
func (w *workerTB) SkipNow()                  { runtime.Goexit() }
func (w *workerTB) Errorf(f string, a ...any) { w.Logf(f, a...); w.failed = true }
func (w *workerTB) Error(a ...any)            { w.Log(a...); w.failed = true }
func (w *workerTB) Fatalf(f string, a ...any) { w.Logf(f, a...); w.FailNow() }
func (w *workerTB) Fatal(a ...any)            { w.Log(a...); w.FailNow() }
func (w *workerTB) FailNow()                  { w.failed = true; runtime.Goexit() }
func (w *workerTB) Fail()                     { w.failed = true }
func (w *workerTB) Failed() bool              { return w.failed }

func cpuNow() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// hangCPU is the processor time one case may use before it is reported as not
// terminating (cases normally take milliseconds, the heaviest about 2 s).
const hangCPU = 60 * time.Second

const exitHang = 97

// memMax is the memory a process may hold in the middle of a case (normally a
// few hundred megabytes) before the case is reported as using up the memory.
const memMax = 3 << 30

func memNow() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, resident int64
	if n, _ := fmt.Sscan(string(b), &size, &resident); n < 2 {
		return 0
	}
	return resident * int64(os.Getpagesize())
}

// overrun says which limit a case went over.
var overrun atomic.Value

type caseBox struct{ v interface{} }

var current atomic.Value // caseBox, the case being executed
var caseNo atomic.Int64

func watchdog(dump func(c interface{})) {
	last := int64(-1)
	var start time.Duration
	for {
		time.Sleep(250 * time.Millisecond)
		n := caseNo.Load()
		if n != last {
			last, start = n, cpuNow()
			continue
		}
		if n%2 == 0 { // odd: inside a case
			continue
		}
		why := ""
		if cpuNow()-start > hangCPU {
			why = fmt.Sprintf("does not terminate: over %v of processor time on one case", hangCPU)
		} else if memNow() > memMax {
			why = fmt.Sprintf("uses up the memory: over %d GB in one case", memMax>>30)
		}
		if why != "" && caseNo.Load() == n {
			overrun.Store(why)
			dump(current.Load().(caseBox).v)
			os.Exit(exitHang)
		}
	}
}

func writeResult(path string, r *result) {
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: cannot encode result:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func worker(s *sub, checks int, seed uint64, out, trace string) {
	debug.SetGCPercent(200)
	runtime.GOMAXPROCS(2)
	testing.Init()
	flag.CommandLine.Parse(nil)
	if seed == 0 {
		seed = 0x9e3779b97f4a7c15
	}
	flag.Set("rapid.checks", strconv.Itoa(checks))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "8s")

	res := &result{Labels: map[string]int{}}
	hashes := map[uint64]struct{}{}
	var failed bool
	var lastFail *failure
	nextSample := 1
	go watchdog(func(c interface{}) {
		b, _ := json.Marshal(c)
		res2 := &result{Hang: b, Why: overrun.Load().(string), Failure: lastFail}
		writeResult(out, res2)
	})

	tb := &workerTB{name: s.Prop + "/" + s.Name}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, func(t *rapid.T) {
			c, _ := s.gen(t)
			var enc []byte
			if !failed || trace != "" {
				var err error
				enc, err = json.Marshal(c)
				if err != nil {
					hbug("cannot encode case: %v", err)
				}
			}
			if trace != "" {
				os.WriteFile(trace, enc, 0o644)
			}
			o := &Obs{}
			current.Store(caseBox{c})
			caseNo.Add(1)
			err := runCase(s, c, o)
			caseNo.Add(1)
			if !failed {
				res.Evals++
				for _, l := range o.labels {
					res.Labels[l]++
				}
				if o.nontrivial {
					h := fnv.New64a()
					h.Write(enc)
					hashes[h.Sum64()] = struct{}{}
				}
				if res.Evals == nextSample && len(res.Samples) < 6 {
					if len(enc) <= 1500 {
						res.Samples = append(res.Samples, enc)
					}
					nextSample = nextSample*3 + 1
				}
			}
			if err != nil {
				failed = true
				fb, e2 := json.Marshal(c)
				if e2 != nil {
					hbug("cannot encode case: %v", e2)
				}
				lastFail = &failure{Case: fb, Err: err.Error()}
				t.Fatalf("violated")
			}
		})
	}()
	<-done
	if lastFail != nil {
		res.Failure = lastFail
	} else if tb.failed {
		res.Problem = strings.Join(tb.log, "\n")
	}
	for h := range hashes {
		res.Hashes = append(res.Hashes, h)
	}
	sort.Slice(res.Hashes, func(i, j int) bool { return res.Hashes[i] < res.Hashes[j] })
	res.NonTrivial = len(hashes)
	dumpRatios()
	writeResult(out, res)
}

// replayFile runs one saved case without rapid. Exit 1 when it fails.
type replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

func loadReplay(path string) (*replay, *sub, interface{}, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, nil, err
	}
	var r replay
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, nil, nil, err
	}
	s := findSub(r.Property, r.Sub)
	if s == nil {
		return nil, nil, nil, fmt.Errorf("no sub-check %s/%s", r.Property, r.Sub)
	}
	c, err := s.decode(r.Case)
	return &r, s, c, err
}

func doReplay(path string) int {
	_, s, c, err := loadReplay(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 3
	}
	current.Store(caseBox{c})
	caseNo.Add(1)
	go watchdog(func(interface{}) {
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", s.Prop, path, overrun.Load())
	})
	o := &Obs{}
	if err := runCase(s, c, o); err != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %v\n", s.Prop, path, s.Name, err)
		return 1
	}
	fmt.Printf("%s/%s: the saved case passes\n", s.Prop, s.Name)
	return 0
}
