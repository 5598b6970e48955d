package props

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"slices"
	"sync/atomic"

	"pgregory.net/rapid"

	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"

	"verifharness/gen"
	"verifharness/geo"
	"verifharness/run"
	"verifharness/tgt"
)

func sameKept(a, b [][]int) bool { return reflect.DeepEqual(a, b) }

// wide draws a case with every option at random.
func wide(t *T, fc int) tgt.Case {
	c := base(t, fc)
	if gen.Chance(t, 20, "sed") {
		sed(t, &c)
	}
	if gen.Chance(t, 60, "avoid0") {
		c.Opt.AvoidSelf = true
		c.Opt.Disp = gen.Threshold(t)
	}
	others(t, &c)
	return c
}

type schedCase struct {
	tgt.Case
	Procs []int `json:"procs"`
}

type permCase struct {
	tgt.Case
	Perm []int `json:"perm"`
	Dup  []int `json:"dup,omitempty"`
	Rev  []int `json:"rev,omitempty"`

	// Others join the batch with their own options, constraints and scores.
	Others []tgt.Case `json:"others,omitempty"`
}

// checkMixed simplifies all jobs in one batch.
func (c *permCase) checkMixed(all [][]int) string {
	jobs := []*tgt.Case{&c.Case}
	want := [][][]int{all}
	for i := range c.Others {
		one := c.Others[i]
		one.FC = false
		jobs = append(jobs, &c.Others[i])
		want = append(want, one.Run())
	}
	if c.Perm[0]%2 == 1 {
		slices.Reverse(jobs)
		slices.Reverse(want)
	}
	id := iter.NewIgen()
	var forest []*constdp.ConstDP
	for _, j := range jobs {
		forest = append(forest, j.Forest(id, j.Opts())...)
	}
	if c.FC {
		constdp.SimplifyFeatureClass(id, forest, c.Opts())
	} else {
		constdp.SimplifyInstances(id, forest, map[int][]int{})
	}
	n := 0
	for k, j := range jobs {
		for i := range j.Lines {
			if got := tgt.Kept(forest[n]); !reflect.DeepEqual(got, want[k][i]) {
				return fmt.Sprintf("line %d of job %d keeps %v, in a batch with lines of other options %v", i, k, want[k][i], got)
			}
			n++
		}
	}
	return ""
}

type frameCase struct {
	tgt.Case
	Sym2   int   `json:"sym2"`
	Scale2 int   `json:"scale2"`
	Off2   geo.P `json:"off2"`
}

type idleCase struct {
	tgt.Case
	Why  string      `json:"why"`
	Bear tgt.Options `json:"bear"` // what is left when the idle options go
}

func permutation(t *T, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := gen.I(t, 0, i, "perm")
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// coordinates as stored in the instances, bit by bit.
func snapshot(f []*constdp.ConstDP) [][]geom.Point {
	var out [][]geom.Point
	for _, s := range f {
		out = append(out, append([]geom.Point{}, s.Coordinates().Points()...))
	}
	return out
}

// given is what snapshot returns on untouched inputs.
func given(c *tgt.Case) [][]geom.Point {
	var out [][]geom.Point
	for _, l := range c.Lines {
		out = append(out, append([]geom.Point{}, geom.AsCoordinates(c.Coords(l)).Points()...))
	}
	return out
}

func init() {
	run.Register(run.Prop{ID: "C14", Quick: 15000, Thorough: 500000, Procs: 8,
		Rule: "feature classes and batches of lines with random options, each simplified four times under different processor counts; non-trivial when some vertex was dropped and some option makes lines or hulls interact"},
		func(t *T) schedCase {
			var c schedCase
			c.Case = wide(t, 70)
			if len(c.Lines) == 1 && gen.Chance(t, 60, "batch") {
				for k := gen.I(t, 1, 20, "nb"); k > 0; k-- {
					l, _ := oneLine(t)
					if c.SED {
						l.T = gen.Times(t, len(l.Pts))
					}
					c.Lines = append(c.Lines, l)
				}
			}
			c.Procs = []int{1, gen.I(t, 2, 4, "procs"), 8}
			return c
		},
		func(c *schedCase) run.Result {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
			var first [][]int
			for i, p := range append(c.Procs, 8) {
				runtime.GOMAXPROCS(p)
				kept, m := shape(&c.Case)
				if m != "" {
					return run.Result{Fail: m}
				}
				if i == 0 {
					first = kept
				} else if !sameKept(first, kept) {
					return run.Failf("two runs of the same input differ: %v and %v", first, kept)
				}
			}
			o := c.Opt
			return run.Result{NonTrivial: dropped(&c.Case, first) > 0 && (o.AvoidSelf || o.Planar || o.Geom || o.Dist || o.Dir || len(c.Lines) > 8), Labels: labels(&c.Case, first)}
		})

	run.Register(run.Prop{ID: "C15", Quick: 18000, Thorough: 800000, Procs: 4,
		Rule: "batches of 1-25 lines simplified together, alone, and in another order (as instances), together with lines of other options, constraints and scores; as a feature class when the lines are far apart; non-trivial when several lines lose a vertex"},
		func(t *T) permCase {
			var c permCase
			c.Case = wide(t, 0)
			for k := gen.I(t, 1, 12, "nb"); k > 0; k-- {
				l, _ := oneLine(t)
				if c.SED {
					l.T = gen.Times(t, len(l.Pts))
				}
				c.Lines = append(c.Lines, l)
			}
			if gen.Chance(t, 30, "apart") {
				// move the lines far apart: then the feature class must agree too
				for i := range c.Lines {
					for k := range c.Lines[i].Pts {
						c.Lines[i].Pts[k][0] += int64(i) * 4000
					}
				}
				c.FC = true
			}
			c.Perm = permutation(t, len(c.Lines))
			frame(t, &c.Case)
			for k := gen.I(t, 0, 2, "others"); k > 0; k-- {
				if !c.FC {
					o := wide(t, 0)
					frame(t, &o)
					c.Others = append(c.Others, o)
					continue
				}
				// the same options, another score, far away
				o := c.Case
				l, _ := oneLine(t)
				for i := range l.Pts {
					l.Pts[i][0] += int64(len(c.Lines)+k) * 4000
				}
				l.T = gen.Times(t, len(l.Pts))
				o.Lines = []tgt.Line{l}
				o.SED, o.Sq = gen.Chance(t, 50, "osed"), gen.Chance(t, 50, "osq")
				if gen.Chance(t, 70, "ocons") {
					o.Cons = nil
					context(t, &o)
				}
				c.Others = append(c.Others, o)
			}
			return c
		},
		func(c *permCase) run.Result {
			all, m := shape(&c.Case)
			if m != "" {
				return run.Result{Fail: m}
			}
			if len(c.Others) > 0 {
				if m := c.checkMixed(all); m != "" {
					return run.Result{Fail: m}
				}
			}
			several := 0
			for i := range c.Lines {
				one := c.Case
				one.FC = false
				one.Lines = c.Lines[i : i+1]
				k := one.Run()
				if !reflect.DeepEqual(k[0], all[i]) {
					return run.Failf("line %d alone keeps %v, among %d lines %v", i, k[0], len(c.Lines), all[i])
				}
				if len(k[0]) < len(c.Lines[i].Pts) {
					several++
				}
			}
			p := c.Case
			p.Lines = nil
			for _, i := range c.Perm {
				p.Lines = append(p.Lines, c.Lines[i])
			}
			k := p.Run()
			for j, i := range c.Perm {
				if !reflect.DeepEqual(k[j], all[i]) {
					return run.Failf("line %d keeps %v in the given order, %v in order %v", i, all[i], k[j], c.Perm)
				}
			}
			return run.Result{NonTrivial: several > 1, Labels: labels(&c.Case, all)}
		})

	run.Register(run.Prop{ID: "C16", Quick: 380000, Thorough: 2000000,
		Rule: "lines with option sets that cannot bear on them (relations without constraints or with constraints farther than the minimum distance from the line's box; planar/non planar/avoidance on lines that never meet themselves; non planar on lines that share vertices with others but never cross themselves; a minimum distance or a displacement limit given while its option is off), compared with the run without those options; non-trivial when some vertex was dropped and some kept"},
		func(t *T) idleCase {
			var c idleCase
			c.Case = base(t, 0)
			if gen.Chance(t, 25, "sed") {
				sed(t, &c.Case)
			}
			c.Why = rapid.SampledFrom([]string{"no constraints", "far", "far", "simple", "monotone", "numbers", "shared"}).Draw(t, "why")
			o := &c.Opt
			o.Geom, o.Dist, o.Dir = gen.Chance(t, 60, "g"), gen.Chance(t, 60, "d"), gen.Chance(t, 60, "h")
			if o.Dist {
				o.MinDist = gen.Threshold(t)
			}
			switch c.Why {
			case "far":
				context(t, &c.Case)
				a, b := bbox(c.Lines[0].Pts)
				gap := int64(math.Ceil(o.MinDist)) + 1 + int64(gen.I(t, 0, 20, "gap"))
				side := gen.I(t, 0, 3, "side")
				for i := range c.Cons {
					var all []geo.P
					for _, r := range c.Cons[i].Rings {
						all = append(all, r...)
					}
					p, q := bbox(all)
					d := geo.P{}
					switch side {
					case 0:
						d[0] = b[0] + gap - p[0]
					case 1:
						d[0] = a[0] - gap - q[0]
					case 2:
						d[1] = b[1] + gap - p[1]
					default:
						d[1] = a[1] - gap - q[1]
					}
					for _, r := range c.Cons[i].Rings {
						for k := range r {
							r[k] = geo.P{r[k][0] + d[0], r[k][1] + d[1]}
						}
					}
				}
			case "simple":
				c.Lines[0].Pts = gen.MakeSimple(c.Lines[0].Pts)
				o.Planar, o.NonPlanar = gen.Chance(t, 70, "p"), gen.Chance(t, 70, "n")
			case "shared": // vertices shared with other lines are no crossings
				sedOn := c.SED
				c.Case = base(t, 100)
				o = &c.Opt
				o.NonPlanar = true
				for i := range c.Lines {
					if ps := gen.MakeSimple(c.Lines[i].Pts); len(ps) == len(c.Lines[i].Pts) {
						c.Lines[i].Pts = ps
					}
					o.NonPlanar = o.NonPlanar && len(crossingEnds(c.Lines[i].Pts)) == 0
				}
				if sedOn {
					sed(t, &c.Case)
				}
			case "monotone":
				x := int64(-50)
				ps := c.Lines[0].Pts
				for i := range ps {
					ps[i][0] = x
					x += int64(gen.I(t, 1, 6, "dx"))
				}
				if gen.Chance(t, 50, "turn") {
					for i := range ps {
						ps[i] = geo.P{ps[i][1], -ps[i][0]}
					}
				}
				o.Planar, o.NonPlanar, o.AvoidSelf = gen.Chance(t, 50, "p"), gen.Chance(t, 50, "n"), true
				o.Disp = gen.Threshold(t)
			}
			if len(c.Lines) == 1 && len(c.Lines[0].T) > 0 {
				c.Lines[0].T = gen.Times(t, len(c.Lines[0].Pts))
			}
			c.Bear = tgt.Options{Threshold: c.Opt.Threshold}
			if c.Why == "numbers" { // distances of relations that are off
				context(t, &c.Case)
				if gen.Chance(t, 50, "na") {
					o.AvoidSelf = true
				}
				o.Dist = false
				c.Bear = *o
				o.MinDist = gen.Threshold(t)
				if !o.AvoidSelf {
					o.Disp = gen.Threshold(t)
				}
			}
			frame(t, &c.Case)
			return c
		},
		func(c *idleCase) run.Result {
			got, m := shape(&c.Case)
			if m != "" {
				return run.Result{Fail: m}
			}
			p := c.Case
			if c.Why != "numbers" {
				p.Cons = nil
			}
			p.Opt = c.Bear
			want := p.Run()
			if !sameKept(got, want) {
				return run.Failf("options that cannot bear on the line (%s) changed the result: %v, without them %v", c.Why, got, want)
			}
			return run.Result{NonTrivial: dropped(&c.Case, got) > 0 && len(got[0]) > 2, Labels: append(labels(&c.Case, got), "why:"+c.Why)}
		})

	run.Register(run.Prop{ID: "C17", Quick: 87000, Thorough: 1500000,
		Rule: "any case simplified in two frames that differ by a power-of-two scale and, where rounding cannot decide, a whole-number shift, mirror and axis swap (lines, constraints and distances alike); non-trivial when some vertex was dropped and some kept"},
		func(t *T) frameCase {
			var c frameCase
			c.Case = wide(t, 30)
			frame(t, &c.Case)
			c.Sym2 = gen.I(t, 0, 7, "sym2")
			c.Scale2 = gen.I(t, -5, 6, "scale2")
			if o := &c.Opt; !o.Planar && !o.NonPlanar && !o.AvoidSelf && !o.Geom && !o.Dist && !o.Dir && c.Off == (geo.P{}) {
				// offsets alone decide: the unit may be anything
				c.Scale2 = rapid.SampledFrom([]int{-30, -24, -18, -12, 12, 20, 30, c.Scale2}).Draw(t, "unit2")
			}
			// off the grid: no exact ties between these limits and distances
			c.Opt.MinDist += 0.01234567
			c.Opt.Disp += 0.01098765
			switch gen.I(t, 0, 3, "off2") {
			case 0:
				c.Off2 = geo.P{500000, 4649776}
			case 1:
				c.Off2 = geo.P{-7654321, 123456}
			case 2:
				c.Off2 = c.Off
			default:
				c.Off2 = geo.P{int64(gen.I(t, -300, 300, "ox")), int64(gen.I(t, -300, 300, "oy"))}
			}
			return c
		},
		func(c *frameCase) run.Result {
			var tied atomic.Bool
			c.Wrap(func(f lnr.ScoreFn) lnr.ScoreFn { return tieWatch(f, &c.Case, &tied) })
			a, m := shape(&c.Case)
			if m != "" {
				return run.Result{Fail: m}
			}
			d := c.Case
			d.Wrap(nil)
			d.Scale, d.Off, d.Sym = c.Scale2, c.Off2, c.Sym2
			// only the scale is compared where a shift or mirror may round a tie
			// the other way: vertices at equal offsets or an offset at the
			// threshold, times (trigonometry), and avoidance of self
			// intersections (which of two touching hulls is split may depend on
			// where the ring of a hull starts)
			if tied.Load() || c.SED || c.Opt.AvoidSelf {
				d.Off, d.Sym = c.Off, c.Sym
			}
			b := d.Run()
			if !sameKept(a, b) {
				return run.Failf("the result depends on the coordinate frame: %v, with scale 2^%d offset %v symmetry %d %v", a, d.Scale, d.Off, d.Sym, b)
			}
			n := 0
			for _, k := range a {
				n += len(k) - 2
			}
			return run.Result{NonTrivial: n > 0 && dropped(&c.Case, a) > 0, Labels: labels(&c.Case, a)}
		})

	run.Register(run.Prop{ID: "C18", Quick: 99000, Thorough: 1500000,
		Rule: "any case with constraints, against the same case with the constraints permuted, some repeated and some digitised backwards; non-trivial when the constraints change the result"},
		func(t *T) permCase {
			var c permCase
			c.Case = base(t, 20)
			if gen.Chance(t, 20, "sed") {
				sed(t, &c.Case)
			}
			context(t, &c.Case)
			o := &c.Opt
			switch gen.I(t, 0, 2, "rel") {
			case 0:
				o.Geom = true
			case 1:
				o.Dist = true
			default:
				o.Dir = true
			}
			others(t, &c.Case)
			if o.Dist {
				o.MinDist = gen.Threshold(t)
			}
			c.Perm = permutation(t, len(c.Cons))
			for i := range c.Cons {
				if gen.Chance(t, 20, "dup") {
					c.Dup = append(c.Dup, i)
				}
				if gen.Chance(t, 30, "rev") {
					c.Rev = append(c.Rev, i)
				}
			}
			frame(t, &c.Case)
			return c
		},
		func(c *permCase) run.Result {
			a, m := shape(&c.Case)
			if m != "" {
				return run.Result{Fail: m}
			}
			d := c.Case
			d.Cons = nil
			rev := map[int]bool{}
			for _, i := range c.Rev {
				rev[i] = true
			}
			for _, i := range append(append([]int{}, c.Perm...), c.Dup...) {
				o := geo.Obj{Kind: c.Cons[i].Kind}
				for _, r := range c.Cons[i].Rings {
					q := append([]geo.P{}, r...)
					if rev[i] {
						for x, y := 0, len(q)-1; x < y; x, y = x+1, y-1 {
							q[x], q[y] = q[y], q[x]
						}
					}
					o.Rings = append(o.Rings, q)
				}
				d.Cons = append(d.Cons, o)
			}
			b := d.Run()
			if !sameKept(a, b) {
				return run.Failf("order, repetition or direction of the constraints changes the result: %v and %v", a, b)
			}
			p := c.Case
			p.Cons = nil
			return run.Result{NonTrivial: !sameKept(a, p.Run()), Labels: labels(&c.Case, a)}
		})

	run.Register(run.Prop{ID: "C19", Quick: 95000, Thorough: 1000000,
		Rule: "any case simplified, its inputs compared bit by bit with what was given, and simplified again with the same instances, as they are and after changes of options, mode and constraints (against fresh instances); non-trivial when some vertex was dropped"},
		drawAgain,
		func(a *againCase) run.Result {
			c := &a.Case
			id := iter.NewIgen()
			o := c.Opts()
			opt := *o
			f := c.Forest(id, o)
			before := given(c)
			cons := fmt.Sprint(consWKT(f))
			var rounds []int // reported numbers of stretches at work
			exec := func() [][]int {
				if c.FC && len(rounds) == 0 {
					constdp.SimplifyFeatureClass(id, f, o, func(n int) { rounds = append(rounds, n) })
				} else if c.FC {
					constdp.SimplifyFeatureClass(id, f, o)
				} else {
					constdp.SimplifyInstances(id, f, map[int][]int{})
				}
				var out [][]int
				for _, s := range f {
					out = append(out, Simple(s))
				}
				return out
			}
			first := exec()
			if c.FC && (o.AvoidNewSelfIntersects || o.PlanarSelf || o.GeomRelation || o.DirRelation || o.DistRelation) {
				if len(rounds) == 0 || rounds[0] < len(f) || slices.Min(rounds) < 1 {
					return run.Failf("the rounds report %v stretches for %d lines", rounds, len(f))
				}
			}
			for round := 0; round < 2; round++ {
				if !reflect.DeepEqual(before, snapshot(f)) {
					return run.Failf("simplification changed the input coordinates: %v, were %v", snapshot(f), before)
				}
				if *o != opt {
					return run.Failf("simplification changed the options: %v, were %v", *o, opt)
				}
				if s := fmt.Sprint(consWKT(f)); s != cons {
					return run.Failf("simplification changed the constraints: %v, were %v", s, cons)
				}
				if round == 0 {
					if b := exec(); !sameKept(first, b) {
						return run.Failf("simplifying the same instances again gives %v, first %v", b, first)
					}
				}
			}
			for i, s := range f {
				if m := badHulls(s, len(c.Lines[i].Pts), first[i]); m != "" {
					return run.Failf("line %d: %s", i, m)
				}
			}
			for k, n := range a.Then {
				d := n.on(c)
				*o = *d.Opts()
				if n.New {
					for _, s := range f {
						s.BuildContextDB(d.Constraints())
					}
				}
				c = d
				got, want := exec(), d.Run()
				if !sameKept(got, want) {
					return run.Failf("simplified again (change %d) with other options or constraints, the instances give %v, new ones %v", k, got, want)
				}
			}
			return run.Result{NonTrivial: dropped(&a.Case, first) > 0, Labels: labels(&a.Case, first)}
		})
}

// change of the options, and of the constraints, between two runs.
type change struct {
	Opt  tgt.Options `json:"opt"`
	FC   bool        `json:"fc,omitempty"`
	New  bool        `json:"new,omitempty"`
	Cons []geo.Obj   `json:"cons,omitempty"`
}

func (n *change) on(c *tgt.Case) *tgt.Case {
	d := *c
	d.Opt, d.FC = n.Opt, n.FC
	if n.New {
		d.Cons = n.Cons
	}
	return &d
}

type againCase struct {
	tgt.Case
	Then []change `json:"then,omitempty"`
}

func drawAgain(t *T) againCase {
	c := againCase{Case: wide(t, 40)}
	if gen.Chance(t, 40, "then") {
		for k := gen.I(t, 1, 3, "changes"); k > 0; k-- {
			n := change{Opt: c.Opt, FC: c.FC}
			o := &n.Opt
			for f := gen.I(t, 1, 3, "facets"); f > 0; f-- {
				switch gen.I(t, 0, 8, "what") {
				case 0, 1:
					o.Threshold = gen.ThresholdFor(t, c.Lines)
				case 2:
					o.Planar = !o.Planar
				case 3:
					o.NonPlanar = !o.NonPlanar
				case 4:
					o.AvoidSelf, o.Disp = !o.AvoidSelf, gen.Threshold(t)
				case 5:
					o.Geom = !o.Geom
				case 6:
					o.Dist, o.MinDist = !o.Dist, gen.Threshold(t)
				case 7:
					o.Dir = !o.Dir
				default:
					n.FC = !n.FC
				}
			}
			if gen.Chance(t, 25, "new constraints") {
				n.New = true
				d := c.Case
				context(t, &d)
				n.Cons = d.Cons
				if gen.Chance(t, 20, "none") {
					n.Cons = nil
				}
			}
			c.Then = append(c.Then, n)
		}
	}
	frame(t, &c.Case)
	return c
}

// tieWatch notes a score that rounding could decide either way.
func tieWatch(f lnr.ScoreFn, c *tgt.Case, tied *atomic.Bool) lnr.ScoreFn {
	thr := c.Opts().Threshold
	unit := math.Ldexp(1, c.Scale)
	return func(co geom.Coords) (int, float64) {
		k, v := f(co)
		n := co.Len() - 1
		if n > 1 {
			best, second := -1.0, -1.0
			for i := 1; i < n; i++ {
				d := floatOffset(co, i, n, c.SED)
				if d > best {
					best, second = d, best
				} else if d > second {
					second = d
				}
			}
			if best-second < 1e-5*unit || math.Abs(best-thr) < 1e-5*unit {
				tied.Store(true)
			}
		}
		return k, v
	}
}

// floatOffset is the offset of vertex i of co from its chord.
func floatOffset(co geom.Coords, i, n int, sed bool) float64 {
	a, b, p := co.Pt(0), co.Pt(n), co.Pt(i)
	dx, dy := b[0]-a[0], b[1]-a[1]
	px, py := p[0]-a[0], p[1]-a[1]
	var f float64
	if sed && a[2] == b[2] {
		f = 0
	} else if sed {
		f = (p[2] - a[2]) / (b[2] - a[2])
	} else if l := dx*dx + dy*dy; l > 0 {
		f = math.Max(0, math.Min(1, (px*dx+py*dy)/l))
	}
	return math.Hypot(px-f*dx, py-f*dy)
}

// Simple reads the result through both accessors of an instance.
func Simple(s *constdp.ConstDP) []int { return tgt.Kept(s) }

func consWKT(f []*constdp.ConstDP) []string {
	var out []string
	for _, s := range f {
		m := map[string]int{}
		for _, n := range s.ContextDB.All() {
			m[n.Geom.WKT()]++
		}
		out = append(out, fmt.Sprint(m))
	}
	return out
}

// badHulls: the final hulls of an instance tile the line at the kept vertices.
func badHulls(s *constdp.ConstDP, n int, kept []int) string {
	next := map[int]int{}
	for i := range s.Hulls {
		r := s.Hulls[i].Range
		if _, dup := next[r.I]; dup || r.J <= r.I {
			return fmt.Sprintf("bad hull %v", r)
		}
		next[r.I] = r.J
	}
	at, k := 0, 0
	for at != n-1 {
		if k >= len(kept) || kept[k] != at {
			return fmt.Sprintf("hulls and kept vertices disagree at vertex %d: kept %v", at, kept)
		}
		j, ok := next[at]
		if !ok {
			return fmt.Sprintf("no hull starts at vertex %d: %v", at, next)
		}
		delete(next, at)
		at, k = j, k+1
	}
	if len(next) > 0 || k != len(kept)-1 {
		return fmt.Sprintf("hulls do not tile the line: left %v", next)
	}
	if got := s.Simple(); !reflect.DeepEqual(got, kept) {
		return fmt.Sprintf("two accessors disagree: %v and %v", got, kept)
	}
	return ""
}
