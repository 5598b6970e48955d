// Package run is the engine of the checks: a parent process that shards the
// generated cases of one property over worker processes, and workers that draw
// cases from rapid, decide each with the property's oracle and shrink failures.
package run

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// Result of deciding one case.
type Result struct {
	Fail       string   // non-empty: the property is broken on this case
	NonTrivial bool     // the case exercised what the property is about
	Labels     []string // classification, counted in the evidence
}

// Failf makes a failing result.
func Failf(format string, args ...any) Result {
	return Result{Fail: fmt.Sprintf(format, args...)}
}

// Prop is one registered property.
type Prop struct {
	ID       string
	Rule     string // how cases are made, and what makes one non-trivial
	Quick    int    // cases of the quick tier
	Thorough int    // cases of the thorough tier
	Procs    int    // GOMAXPROCS of a worker (0: 2)
	Race     bool   // run the race-detector build
	Assume   []string

	gen    func(*rapid.T) any
	check  func(any) Result
	decode func([]byte) (any, error)
}

var registry = map[string]*Prop{}

// Register a property: gen draws a case (JSON-serialisable), check decides it.
func Register[C any](p Prop, gen func(*rapid.T) C, check func(*C) Result) {
	p.gen = func(t *rapid.T) any { c := gen(t); return &c }
	p.check = func(v any) Result { return check(v.(*C)) }
	p.decode = func(b []byte) (any, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return &c, err
	}
	if _, dup := registry[p.ID]; dup {
		panic("duplicate property " + p.ID)
	}
	registry[p.ID] = &p
}

// Lookup a property.
func Lookup(id string) *Prop { return registry[id] }

// IDs of all properties.
func IDs() []string {
	var out []string
	for id := range registry {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// codeFrame tells whether a stack trace goes through the code under test.
func codeFrame(stack string) bool {
	return strings.Contains(stack, "github.com/TopoSimplify/plugin")
}

// decide runs the oracle; a panic out of the code under test is a failure, a
// panic of the harness itself is an error.
func (p *Prop) decide(c any) (r Result) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if j := strings.Index(st, "verifharness/run.(*Prop).decide"); j >= 0 {
				st = st[:j]
			}
			if !codeFrame(st) {
				fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", e, st)
				os.Exit(4)
			}
			if len(st) > 3000 {
				st = st[:3000]
			}
			r = Result{Fail: fmt.Sprintf("panic: %v\n%s", e, st)}
		}
	}()
	return p.check(c)
}

// tb is the minimal testing object rapid needs.
type tb struct {
	mu     sync.Mutex
	failed bool
	log    []string
}

type failNow struct{}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return "vp" }
func (t *tb) Logf(f string, a ...any) {
	t.mu.Lock()
	if len(t.log) < 50 {
		t.log = append(t.log, fmt.Sprintf(f, a...))
	}
	t.mu.Unlock()
}
func (t *tb) Log(a ...any)              { t.Logf("%s", fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { t.Logf(f, a...); panic(failNow{}) }
func (t *tb) Skip(a ...any)             { panic(failNow{}) }
func (t *tb) SkipNow()                  { panic(failNow{}) }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(failNow{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(failNow{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(failNow{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

// Failure is what a replay file holds.
type Failure struct {
	Property string          `json:"property"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Seed     uint64          `json:"seed,omitempty"`
	How      string          `json:"how,omitempty"`
}

// Report is what a worker leaves behind.
type Report struct {
	Cases      int
	NonTrivial int
	Labels     map[string]int
	Samples    []json.RawMessage
	Hashes     []uint64
	Stopped    bool // deadline hit
	Failed     bool
	Log        []string
	Secs       float64
}

var scratch struct {
	once sync.Once
	dir  string
}

// Scratch is a directory of this process for files of a case.
func Scratch() string {
	scratch.once.Do(func() {
		base := os.Getenv("VP_SCRATCH")
		d, err := os.MkdirTemp(base, "files-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitHarness)
		}
		scratch.dir = d
	})
	return scratch.dir
}
