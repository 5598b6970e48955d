package run

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Shards is the fixed number of worker processes (not the core count, so that
// a run is a function of the code and the seed alone).
const Shards = 8

type shard struct {
	i      int
	dir    string
	n      int
	seed   uint64
	code   int
	stderr string
	rep    Report
	hasRep bool
}

func mixSeed(base uint64, id string, i int) uint64 {
	v := hash([]byte(fmt.Sprintf("%d/%s/%d", base, id, i))) & (1<<62 - 1)
	if v == 0 {
		v = 1
	}
	return v
}

// Check runs one property and returns the exit code.
func Check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	root := fs.String("root", "/verif", "")
	work := fs.String("work", "", "")
	cases := fs.Int("cases", 0, "override the number of cases")
	seedStr := fs.String("seed", "1", "")
	shrink := fs.Float64("shrink", 20, "seconds a worker may spend shrinking")
	_ = fs.Parse(args)
	p := Lookup(*id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		return 2
	}
	base, err := strconv.ParseInt(strings.TrimSpace(*seedStr), 10, 64)
	if err != nil {
		base = int64(hash([]byte(*seedStr)) >> 2)
	}
	total, secs := p.Quick, 330.0
	if *tier == "thorough" {
		total, secs = p.Thorough, 3000
	} else {
		*tier = "quick"
	}
	if *cases > 0 {
		total = *cases
	}
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, err := os.MkdirTemp(*work, "run-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	shards := make([]*shard, Shards)
	done := make(chan *shard, Shards)
	for i := range shards {
		s := &shard{i: i, dir: filepath.Join(dir, strconv.Itoa(i)), n: (total + Shards - 1) / Shards, seed: mixSeed(uint64(base), p.ID, i)}
		shards[i] = s
		if err := os.MkdirAll(s.dir, 0o755); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		go func() { s.run(self, p, secs, []string{"-shrink", fmt.Sprint(*shrink)}); done <- s }()
	}
	for range shards {
		<-done
	}
	ev := evidence(p, *tier, base, shards)
	fail, trouble := settle(self, p, shards)
	code := 0
	viol := 0
	switch {
	case fail != nil:
		viol, code = 1, 1
		rp := filepath.Join(*root, "replays")
		_ = os.MkdirAll(rp, 0o755)
		path := filepath.Join(rp, fmt.Sprintf("%s-%016x.json", p.ID, hash(fail.Case)))
		b, _ := json.MarshalIndent(fail, "", " ")
		_ = os.WriteFile(path, b, 0o644)
		msg := strings.SplitN(fail.Message, "\n", 2)[0]
		fmt.Printf("property %s fails: %s\n", p.ID, msg)
		fmt.Printf("case: %s\n", clip(string(fail.Case), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	case trouble != "":
		fmt.Fprintf(os.Stderr, "ERROR property=%s: %s\n", p.ID, trouble)
		code = 2
	}
	ev["violations"] = viol
	ev["wall_s"] = float64(int(time.Since(start).Seconds()*100)) / 100
	_ = os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*root, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if code == 0 {
			code = 2
		}
	}
	if code == 0 {
		cov := ev["coverage"].(map[string]any)
		fmt.Printf("property %s held on %v cases (%v distinct non-trivial) in %.1fs\n", p.ID, cov["evaluations"], cov["distinct_nontrivial"], time.Since(start).Seconds())
	}
	return code
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (s *shard) run(self string, p *Prop, secs float64, extra []string) {
	args := append([]string{"worker", "-prop", p.ID, "-n", strconv.Itoa(s.n), "-seed", strconv.FormatUint(s.seed, 10),
		"-dir", s.dir, "-secs", fmt.Sprint(secs)}, extra...)
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=20", "GOTRACEBACK=all", "GOGC=200", "VP_SCRATCH="+s.dir)
	var sb limited
	cmd.Stdout, cmd.Stderr = &sb, &sb
	timer := (*time.Timer)(nil)
	err := cmd.Start()
	if err == nil {
		timer = time.AfterFunc(time.Duration(secs+150)*time.Second, func() { _ = cmd.Process.Kill() })
		err = cmd.Wait()
		timer.Stop()
	}
	s.stderr = sb.String()
	if err != nil {
		s.code = exitHarness
		if ee, ok := err.(*exec.ExitError); ok {
			s.code = ee.ExitCode()
		} else {
			s.stderr += err.Error()
		}
	}
	if b, e := os.ReadFile(filepath.Join(s.dir, "report.json")); e == nil {
		s.hasRep = json.Unmarshal(b, &s.rep) == nil
	}
}

// settle turns the endings of the workers into a verdict.
func settle(self string, p *Prop, shards []*shard) (*Failure, string) {
	var trouble string
	var best *Failure
	take := func(f *Failure) {
		if f != nil && (best == nil || len(f.Case) < len(best.Case)) {
			best = f
		}
	}
	var dead []*shard
	for _, s := range shards {
		switch {
		case s.code == exitOK && s.hasRep:
		case s.code == exitFail:
			f := readFail(filepath.Join(s.dir, "fail.json"))
			if f == nil {
				trouble = "worker failed without a case: " + s.stderr
				continue
			}
			f.Seed = s.seed
			take(f)
		case s.code == exitHarness:
			trouble = fmt.Sprintf("shard %d: harness error\n%s", s.i, s.stderr)
		default:
			dead = append(dead, s)
		}
	}
	if best != nil {
		return best, ""
	}
	for _, s := range dead {
		c := readCur(filepath.Join(s.dir, "cur.json"))
		if c == nil {
			trouble = fmt.Sprintf("shard %d ended with code %d\n%s", s.i, s.code, clip(s.stderr, 4000))
			continue
		}
		f := &Failure{Property: p.ID, Case: c, Seed: s.seed, Message: crashLine(s.stderr), How: clip(s.stderr, 6000)}
		rp := filepath.Join(s.dir, "crash.json")
		b, _ := json.Marshal(f)
		_ = os.WriteFile(rp, b, 0o644)
		confirmed := false
		for try := 0; try < 3 && !confirmed; try++ {
			code, msg := replayProcess(self, rp, 400*time.Second)
			switch {
			case code == exitFail || code == exitHang || crashed(msg):
				confirmed = true
			case code == exitOK:
			default:
				trouble = fmt.Sprintf("shard %d: replay of a crash ended with code %d\n%s", s.i, code, clip(msg, 4000))
			}
		}
		if !confirmed && s.code != exitHang && crashed(s.stderr) {
			// the runtime reported a crash inside the code under test (a
			// schedule the replay did not meet again)
			confirmed = true
			f.How += "\n(not every replay meets this schedule)"
		}
		if !confirmed && s.code == exitHang && strings.Contains(s.stderr, "runaway case: stuck") && codeFrame(s.stderr) {
			// the goroutines of the code under test wait for each other
			confirmed = true
			f.How += "\n(not every replay meets this schedule)"
		}
		if !confirmed {
			if trouble == "" {
				trouble = fmt.Sprintf("shard %d ended with code %d, not reproduced\n%s", s.i, s.code, clip(s.stderr, 4000))
			}
			continue
		}
		if s.code != exitHang {
			// shrink with every candidate in a process of its own
			k := &shard{i: s.i, dir: filepath.Join(s.dir, "iso"), n: s.n, seed: s.seed}
			_ = os.MkdirAll(k.dir, 0o755)
			if idx := countBefore(self, p, s, c); idx >= 0 {
				k.run(self, p, 60, []string{"-isolate", "-skip", strconv.Itoa(idx), "-shrink", "30"})
				if g := readFail(filepath.Join(k.dir, "fail.json")); g != nil {
					g.Seed = s.seed
					f = g
				}
			}
		}
		take(f)
		break
	}
	if best != nil {
		return best, ""
	}
	return nil, trouble
}

// countBefore finds how many cases of the shard precede case c, by generating
// (not running) them again.
func countBefore(self string, p *Prop, s *shard, c []byte) int {
	out, err := exec.Command(self, "index", "-prop", p.ID, "-n", strconv.Itoa(s.n), "-seed", strconv.FormatUint(s.seed, 10),
		"-hash", strconv.FormatUint(hash(c), 10)).Output()
	if err != nil {
		return -1
	}
	v, err := strconv.Atoi(strings.TrimSpace(string(out)))
	if err != nil {
		return -1
	}
	return v
}

func crashLine(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "DATA RACE") || strings.HasPrefix(l, "runaway case") {
			return l
		}
	}
	return "the process ended abnormally"
}

func readFail(path string) *Failure {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var f Failure
	if json.Unmarshal(b, &f) != nil {
		return nil
	}
	return &f
}

func evidence(p *Prop, tier string, seed int64, shards []*shard) map[string]any {
	cases := 0
	seen := map[uint64]bool{}
	labels := map[string]int{}
	samples := []json.RawMessage{}
	stopped := false
	for _, s := range shards {
		cases += s.rep.Cases
		for _, h := range s.rep.Hashes {
			seen[h] = true
		}
		for k, v := range s.rep.Labels {
			labels[k] += v
		}
		for _, b := range s.rep.Samples {
			if len(samples) < 4 {
				samples = append(samples, b)
			}
		}
		stopped = stopped || s.rep.Stopped
	}
	keys := make([]string, 0, len(labels))
	for k := range labels {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	cov := map[string]any{
		"evaluations":         cases,
		"distinct_nontrivial": len(seen),
		"rule":                p.Rule,
		"samples":             samples,
		"classes":             labels,
		"shards":              len(shards),
	}
	if stopped {
		cov["stopped_early"] = "time budget"
	}
	assume := append([]string{"generated-input search: no violation among the cases of this run; cases outside the generators are not covered"}, p.Assume...)
	return map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": assume,
	}
}
