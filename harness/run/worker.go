package run

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// exit codes of a worker or replay process
const (
	exitOK      = 0
	exitFail    = 1  // the property failed; fail.json holds the case
	exitHarness = 4  // harness error
	exitHang    = 5  // watchdog: one case ran away
	hangCPU     = 60 // seconds of processor time for one case ...
	hangWall    = 70 // ... and of wall time
	stuckWall   = 60 // seconds without a thread that wants to run
	maxRSS      = 3500 << 20
)

type worker struct {
	p       *Prop
	dir     string
	cur     *os.File
	rep     Report
	seen    map[uint64]bool
	stop    time.Time
	shrink  bool
	skip    int
	isolate bool
	self    string
	caseAt  atomic.Int64 // unix nanos of the running case, 0 when idle
	cpuAt   atomic.Int64
}

func cpuNanos() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	v, _ := strconv.ParseInt(f[1], 10, 64)
	return v * int64(os.Getpagesize())
}

// Child counts the child processes a case waits for.
var Child atomic.Int32

// asleep: no thread of the process but the calling one is running or wants to.
func asleep() bool {
	tasks, err := os.ReadDir("/proc/self/task")
	if err != nil {
		return false
	}
	awake := 0
	for _, t := range tasks {
		b, err := os.ReadFile("/proc/self/task/" + t.Name() + "/stat")
		if err != nil {
			continue
		}
		// pid (comm) state ...
		if i := strings.LastIndexByte(string(b), ')'); i < 0 || i+2 >= len(b) || b[i+2] != 'S' {
			awake++
		}
	}
	return awake <= 1
}

// watchdog ends the process when one case runs away in time or memory, or is
// stuck: every thread has been asleep for a minute.
func (w *worker) watchdog() {
	var since, sleepCPU, sleepCase int64 // a spell of sleep, ...
	var looks, slept int                 // ... samples in it, those asleep
	for {
		time.Sleep(200 * time.Millisecond)
		at := w.caseAt.Load()
		if at == 0 {
			since = 0
			continue
		}
		now := time.Now().UnixNano()
		cpu := cpuNanos() - w.cpuAt.Load()
		wall := now - at
		grown := rss() > maxRSS
		if wall < 5*1e9 || Child.Load() > 0 {
			since = 0
		} else {
			// a thread may be awake in passing; a starved one always is
			if since == 0 || sleepCase != at || cpu-sleepCPU > stuckWall*1e7 || slept < looks/2 {
				since, sleepCPU, sleepCase, looks, slept = now, cpu, at, 0, 0
			}
			looks++
			if asleep() {
				slept++
			}
		}
		if since != 0 && now-since > stuckWall*1e9 && looks > stuckWall && w.caseAt.Load() == at {
			buf := make([]byte, 48<<10)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "runaway case: stuck, every thread has been asleep for %ds\n%s\n", stuckWall, buf)
			os.Exit(exitHang)
		}
		if (cpu > hangCPU*1e9 && wall > hangWall*1e9) || wall > 300*1e9 || grown {
			if w.caseAt.Load() != at {
				continue
			}
			fmt.Fprintf(os.Stderr, "runaway case: cpu %.1fs wall %.1fs rss %dMB\n", float64(cpu)/1e9, float64(wall)/1e9, rss()>>20)
			os.Exit(exitHang)
		}
	}
}

func (w *worker) setCur(b []byte) {
	if w.cur == nil {
		return
	}
	head := fmt.Sprintf("%12d\n", len(b))
	_, _ = w.cur.WriteAt(append([]byte(head), b...), 0)
}

// Cur reads back the case a dead worker was running.
func readCur(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 13 {
		return nil
	}
	n, err := strconv.Atoi(strings.TrimSpace(string(b[:12])))
	if err != nil || len(b) < 13+n || n == 0 {
		return nil
	}
	return b[13 : 13+n]
}

func (w *worker) begin() {
	w.cpuAt.Store(cpuNanos())
	w.caseAt.Store(time.Now().UnixNano())
}
func (w *worker) end() { w.caseAt.Store(0) }

func (w *worker) prop(t *rapid.T) {
	if !w.rep.Failed && time.Now().After(w.stop) {
		w.rep.Stopped = true
		return
	}
	c := w.p.gen(t)
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	if !w.rep.Failed {
		w.rep.Cases++
		if w.isolate && w.rep.Cases <= w.skip {
			return
		}
	}
	var r Result
	if w.isolate {
		r = w.remote(b)
	} else {
		w.setCur(b)
		w.begin()
		r = w.p.decide(c)
		w.end()
	}
	if r.Fail != "" {
		w.rep.Failed = true
		f := Failure{Property: w.p.ID, Message: r.Fail, Case: b}
		out, _ := json.MarshalIndent(f, "", " ")
		_ = os.WriteFile(filepath.Join(w.dir, "fail.json"), out, 0o644)
		t.Fatalf("property fails")
	}
	if w.rep.Failed {
		return // shrinking
	}
	for _, l := range r.Labels {
		w.rep.Labels[l]++
	}
	if r.NonTrivial {
		h := hash(b)
		if !w.seen[h] {
			w.seen[h] = true
			w.rep.Hashes = append(w.rep.Hashes, h)
			w.rep.NonTrivial++
			n := w.rep.NonTrivial
			if (n == 5 || n == 50 || n == 500) && len(b) < 2500 {
				w.rep.Samples = append(w.rep.Samples, b)
			}
		}
	}
}

// remote decides a case in a process of its own.
func (w *worker) remote(b []byte) Result {
	path := filepath.Join(w.dir, "remote.json")
	out, _ := json.Marshal(Failure{Property: w.p.ID, Case: b})
	if err := os.WriteFile(path, out, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitHarness)
	}
	code, msg := replayProcess(w.self, path, 60*time.Second)
	switch code {
	case exitOK:
		return Result{}
	case exitFail, exitHang:
		return Result{Fail: msg}
	}
	if crashed(msg) {
		return Result{Fail: crashLine(msg) + "\n" + msg}
	}
	return Result{}
}

// crashed: the Go runtime ended the process inside the code under test.
func crashed(stderr string) bool {
	if strings.Contains(stderr, "out of memory") || strings.Contains(stderr, "cannot allocate") ||
		strings.Contains(stderr, "failed to create new OS thread") {
		return false
	}
	return (strings.Contains(stderr, "panic:") || strings.Contains(stderr, "fatal error:") ||
		strings.Contains(stderr, "DATA RACE")) && codeFrame(stderr)
}

func replayProcess(self, path string, limit time.Duration) (int, string) {
	cmd := exec.Command(self, "replay", path)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=20")
	var sb limited
	cmd.Stdout, cmd.Stderr = &sb, &sb
	if err := cmd.Start(); err != nil {
		return exitHarness, err.Error()
	}
	timer := time.AfterFunc(limit, func() { _ = cmd.Process.Kill() })
	err := cmd.Wait()
	if !timer.Stop() {
		return exitHarness, "replay timed out\n" + sb.String()
	}
	if err == nil {
		return exitOK, sb.String()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), sb.String()
	}
	return exitHarness, err.Error()
}

// limited keeps the first 64 KB written to it.
type limited struct{ b []byte }

func (l *limited) Write(p []byte) (int, error) {
	if room := 64<<10 - len(l.b); room > 0 {
		l.b = append(l.b, p[:min(room, len(p))]...)
	}
	return len(p), nil
}
func (l *limited) String() string { return string(l.b) }

// Worker runs the generated cases of one shard.
func Worker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	n := fs.Int("n", 100, "")
	seed := fs.Uint64("seed", 1, "")
	dir := fs.String("dir", "", "")
	secs := fs.Float64("secs", 600, "")
	shrink := fs.Float64("shrink", 20, "")
	isolate := fs.Bool("isolate", false, "")
	skip := fs.Int("skip", 0, "")
	_ = fs.Parse(args)
	p := Lookup(*id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		return exitHarness
	}
	setProcs(p)
	testing.Init()
	flag.CommandLine.Init("rapid", flag.ContinueOnError)
	_ = flag.CommandLine.Parse(nil)
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			panic(err)
		}
	}
	set("rapid.checks", strconv.Itoa(*n))
	set("rapid.seed", strconv.FormatUint(*seed, 10))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", fmt.Sprintf("%gs", *shrink))
	self, _ := os.Executable()
	w := &worker{p: p, dir: *dir, seen: map[uint64]bool{}, isolate: *isolate, skip: *skip, self: self}
	w.rep.Labels = map[string]int{}
	start := time.Now()
	w.stop = start.Add(time.Duration(*secs * float64(time.Second)))
	var err error
	if !*isolate {
		if w.cur, err = os.Create(filepath.Join(*dir, "cur.json")); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitHarness
		}
		go w.watchdog()
	}
	t := &tb{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(failNow); !ok {
					panic(e)
				}
			}
		}()
		rapid.Check(t, w.prop)
	}()
	w.rep.Log = t.log
	w.rep.Secs = time.Since(start).Seconds()
	b, _ := json.Marshal(w.rep)
	if err := os.WriteFile(filepath.Join(*dir, "report.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	if w.rep.Failed {
		return exitFail
	}
	if t.failed {
		fmt.Fprintln(os.Stderr, strings.Join(t.log, "\n"))
		return exitHarness
	}
	return exitOK
}

func setProcs(p *Prop) {
	n := p.Procs
	if n == 0 {
		n = 2
	}
	runtime.GOMAXPROCS(n)
}

// Replay decides one stored case without the library.
func Replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	var f Failure
	if err = json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	p := Lookup(f.Property)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", f.Property)
		return exitHarness
	}
	c, err := p.decode(f.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	setProcs(p)
	w := &worker{p: p}
	go w.watchdog()
	w.begin()
	r := p.decide(c)
	w.end()
	if r.Fail != "" {
		fmt.Printf("%s\n", r.Fail)
		return exitFail
	}
	return exitOK
}
