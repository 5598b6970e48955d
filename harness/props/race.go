package props

import (
	"fmt"
	"runtime"
	"sort"
	"sync"

	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/TopoSimplify/plugin/state"
	"github.com/intdxdt/iter"

	"verifharness/gen"
	"verifharness/run"
	"verifharness/tgt"
)

type raceCase struct {
	Jobs   []tgt.Case `json:"jobs"`
	Shared bool       `json:"shared,omitempty"` // one generator and one options object where the options are equal
	Procs  int        `json:"procs"`
	Twin   int        `json:"twin,omitempty"`  // the last job has the first one's constraints
	Apart  bool       `json:"apart,omitempty"` // each job builds its instances itself
}

type queueCase struct {
	Ops   []int `json:"ops"`   // sequential history: code*1000+node
	Procs int   `json:"procs"` // goroutines of the concurrent part
	Each  int   `json:"each"`  // operations of each
	Init  int   `json:"init"`
}

func marked(i int) node.Node { return node.Node{Id: i, Range: rng.Range(i, i+1)} }

func checkQueue(c *queueCase) run.Result {
	q := node.NewQueue()
	var model []int
	most := 0
	for n, v := range c.Ops {
		id := v % 1000
		pick := func(what string, got node.Node, want int) string {
			if got.Id != want || got.Range.I != want || got.Range.J != want+1 {
				return fmt.Sprintf("operation %d: %s gives node %d %v, want %d", n, what, got.Id, got.Range, want)
			}
			return ""
		}
		m := ""
		switch v / 1000 {
		case 0, 1, 2:
			if q.Append(marked(id)) != q {
				return run.Failf("Append returns another queue")
			}
			model = append(model, id)
		case 3, 4:
			q.AppendLeft(marked(id))
			model = append([]int{id}, model...)
		case 5:
			if len(model) > 0 {
				m = pick("Pop", q.Pop(), model[len(model)-1])
				model = model[:len(model)-1]
			}
		case 6:
			if len(model) > 0 {
				m = pick("PopLeft", q.PopLeft(), model[0])
				model = model[1:]
			}
		case 7:
			if len(model) > 0 {
				if m = pick("First", q.First(), model[0]); m == "" {
					m = pick("Last", q.Last(), model[len(model)-1])
				}
			}
		default:
			if id < 100 {
				q.Clear()
				model = nil
			}
		}
		if m != "" {
			return run.Result{Fail: m}
		}
		if q.Size() != len(model) {
			return run.Failf("operation %d: size %d, want %d", n, q.Size(), len(model))
		}
		most = max(most, len(model))
	}

	// concurrent part: nothing lost, nothing twice, each producer's order kept
	q = node.NewQueue()
	want := map[int]int{}
	for i := 0; i < c.Init; i++ {
		q.Append(marked(i))
		want[i]++
	}
	var mu sync.Mutex
	var popped []int
	var wg sync.WaitGroup
	pops := c.Init / max(c.Procs, 1) // never more than there were at first
	for g := 0; g < c.Procs; g++ {
		for k := 0; k < c.Each; k++ {
			want[1000*(g+1)+k]++
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			var own []int
			for k := 0; k < c.Each || k < pops; k++ {
				if k < c.Each {
					if g%2 == 0 {
						q.Append(marked(1000*(g+1) + k))
					} else {
						q.AppendLeft(marked(1000*(g+1) + k))
					}
				}
				if k < pops {
					var n node.Node
					if g%3 == 0 {
						n = q.Pop()
					} else {
						n = q.PopLeft()
					}
					own = append(own, n.Id)
				}
				if q.Size() < 0 {
					panic("negative size")
				}
			}
			mu.Lock()
			popped = append(popped, own...)
			mu.Unlock()
		}()
	}
	wg.Wait()
	var rest []int
	for q.Size() > 0 {
		rest = append(rest, q.PopLeft().Id)
	}
	got := map[int]int{}
	for _, id := range append(append([]int{}, popped...), rest...) {
		got[id]++
	}
	if len(got) != len(want) {
		return run.Failf("%d nodes came out of the queue, %d were put in", len(got), len(want))
	}
	for id, n := range want {
		if got[id] != n {
			return run.Failf("node %d was put in %d times and came out %d times", id, n, got[id])
		}
	}
	// what stayed: nodes of one producer in the order of its calls (from the
	// left for Append, from the right for AppendLeft)
	last := map[int]int{}
	for _, id := range rest {
		g := id / 1000
		if g == 0 {
			continue
		}
		if p, ok := last[g]; ok {
			if (g-1)%2 == 0 && id < p || (g-1)%2 == 1 && id > p {
				return run.Failf("nodes of producer %d stand in the order %d, %d", g, p, id)
			}
		}
		last[g] = id
	}

	// node lists
	var list node.Nodes
	var ptrs node.NodePtrs
	set := map[int]bool{}
	for _, v := range c.Ops {
		n := marked(v % 1000)
		list = append(list, n)
		ptrs = append(ptrs, &n)
		set[v%1000], set[v%1000+1] = true, true
	}
	vals := list.AsPointSet().Values()
	if len(vals) != len(set) {
		return run.Failf("point set of %d values, want %d", len(vals), len(set))
	}
	for i, v := range vals {
		if !set[v.(int)] || i > 0 && v.(int) <= vals[i-1].(int) {
			return run.Failf("point set %v", vals)
		}
	}
	sort.Sort(list)
	sort.Sort(ptrs)
	for i := range list {
		if i > 0 && (list[i].Range.I < list[i-1].Range.I || ptrs[i].Range.I < ptrs[i-1].Range.I) {
			return run.Failf("sorted nodes are out of order at %d", i)
		}
		if list[i].Range.I != ptrs[i].Range.I {
			return run.Failf("nodes and node pointers sort differently at %d", i)
		}
	}
	var s state.State
	if s.MarkClean(); !s.IsClean() || s.IsDirty() {
		return run.Failf("a clean state says dirty")
	}
	if s.MarkDirty(); s.IsClean() || !s.IsDirty() {
		return run.Failf("a dirty state says clean")
	}
	return run.Result{NonTrivial: most > 4 && c.Procs > 1 && c.Each > 1, Labels: []string{fmt.Sprintf("most:%d", most/16*16), fmt.Sprintf("goroutines:%d", c.Procs)}}
}

func execForest(c *tgt.Case, id *iter.Igen, f []*constdp.ConstDP, o *opts.Opts) [][]int {
	if c.FC {
		constdp.SimplifyFeatureClass(id, f, o)
	} else {
		constdp.SimplifyInstances(id, f, map[int][]int{})
	}
	out := make([][]int, len(f))
	for i := range f {
		out[i] = tgt.Kept(f[i])
	}
	return out
}

func init() {
	run.Register(run.Prop{ID: "C29", Quick: 120000, Thorough: 1000000, Procs: 4, Race: true,
		Rule: "histories of up to 120 operations on a node queue against a list, then producers and consumers at work at once, checked for lost, repeated and reordered nodes and for data races; non-trivial when the queue held more than four nodes and several producers were at work"},
		func(t *T) queueCase {
			c := queueCase{Procs: gen.I(t, 1, 6, "procs"), Each: gen.I(t, 0, 40, "each"), Init: gen.I(t, 0, 60, "init")}
			left := gen.Chance(t, 30, "left")
			for k := gen.I(t, 0, 120, "n"); k > 0; k-- {
				op := gen.I(t, 0, 8, "op")
				if left && op < 3 {
					op = 3
				}
				c.Ops = append(c.Ops, op*1000+gen.I(t, 0, 999, "id"))
			}
			return c
		}, checkQueue)

	run.Register(run.Prop{ID: "C34", Quick: 2000, Thorough: 60000, Procs: 8, Race: true,
		Rule: "one to five jobs (batches and feature classes, every option at random) built and run at once in a race-detector build, together with a sequential run of each for comparison; non-trivial when two jobs or more lost vertices, or one of many lines did"},
		func(t *T) raceCase {
			c := raceCase{Shared: gen.Chance(t, 60, "shared"), Procs: gen.I(t, 2, 8, "procs")}
			for k := gen.I(t, 1, 4, "jobs"); k > 0; k-- {
				j := wide(t, 60)
				for n := gen.I(t, 0, 6, "more"); n > 0; n-- {
					l, _ := oneLine(t)
					if j.SED {
						l.T = gen.Times(t, len(l.Pts))
					}
					if len(j.Lines) > 8 || len(l.Pts) > 60 {
						break
					}
					j.Lines = append(j.Lines, l)
				}
				frame(t, &j)
				c.Jobs = append(c.Jobs, j)
			}
			if gen.Chance(t, 30, "same") {
				c.Jobs = append(c.Jobs, c.Jobs[0])
				c.Twin = gen.I(t, 0, 1, "twin")
			}
			c.Apart = gen.Chance(t, 60, "apart")
			return c
		},
		func(c *raceCase) run.Result {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
			runtime.GOMAXPROCS(1)
			var want [][][]int
			lost := 0
			for i := range c.Jobs {
				k, m := shape(&c.Jobs[i])
				if m != "" {
					return run.Result{Fail: m}
				}
				want = append(want, k)
				if dropped(&c.Jobs[i], k) > 0 {
					lost++
				}
			}
			runtime.GOMAXPROCS(c.Procs)
			id := iter.NewIgen()
			got := make([][][]int, len(c.Jobs))
			var wg sync.WaitGroup
			var first *opts.Opts
			cons := c.Jobs[0].Constraints()
			for i := range c.Jobs {
				j := &c.Jobs[i]
				own, o := iter.NewIgen(), j.Opts()
				if c.Shared {
					own = id
					if first == nil {
						first = o
					} else if *first == *o {
						o = first
					}
				}
				p, q := j.Polylines(), cons
				if i > 0 && (c.Twin == 0 || i < len(c.Jobs)-1) {
					q = j.Constraints()
				}
				var f []*constdp.ConstDP
				if !c.Apart {
					f = j.ForestOn(own, o, p, q)
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					if c.Apart {
						f = j.ForestOn(own, o, p, q)
					}
					got[i] = execForest(j, own, f, o)
				}()
			}
			wg.Wait()
			for i := range got {
				if !sameKept(got[i], want[i]) {
					return run.Failf("job %d run beside %d others gives %v, alone %v", i, len(got)-1, got[i], want[i])
				}
			}
			return run.Result{NonTrivial: lost > 1 || lost == 1 && len(c.Jobs[0].Lines) > 2, Labels: append(labels(&c.Jobs[0], want[0]), fmt.Sprintf("jobs:%d", len(c.Jobs)))}
		})
}
