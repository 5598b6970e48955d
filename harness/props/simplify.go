package props

import (
	"fmt"

	"verifharness/gen"
	"verifharness/geo"
	"verifharness/run"
	"verifharness/tgt"
)

func someDropped(c *tgt.Case, kept [][]int) bool { return dropped(c, kept) > 0 }

func init() {
	run.Register(run.Prop{ID: "C01", Quick: 290000, Thorough: 1500000,
		Rule: "random lines (10 shape families, 2-400 vertices, repeated vertices, 2-D or with third component), any threshold, any combination of options and constraints, single instances or feature classes, DP or SED; non-trivial when some vertex was dropped and some interior vertex kept"},
		func(t *T) tgt.Case {
			c := base(t, 35)
			if gen.Chance(t, 25, "sed") {
				sed(t, &c)
			}
			others(t, &c)
			anyFrame(t, &c)
			return c
		},
		perLine(func(c *tgt.Case, i int, kept []int) string { return "" }, func(c *tgt.Case, kept [][]int) bool {
			n := 0
			for _, k := range kept {
				n += len(k) - 2
			}
			return n > 0 && dropped(c, kept) > 0
		}))

	run.Register(run.Prop{ID: "C02", Quick: 480000, Thorough: 2500000,
		Rule: "random lines, any threshold, plain or squared offset score, no constraint option; non-trivial when a vertex was dropped"},
		func(t *T) tgt.Case { c := base(t, 20); anyFrame(t, &c); return c },
		perLine(func(c *tgt.Case, i int, kept []int) string {
			return overThreshold(&c.Lines[i], kept, c.Opt.Threshold, false)
		}, someDropped))

	run.Register(run.Prop{ID: "C03", Quick: 480000, Thorough: 2500000,
		Rule: "random trajectories (x, y, time in any unit; mostly increasing, now and then standing still, running backwards or arbitrary), any threshold, plain or squared score, no constraint option; non-trivial when a vertex was dropped"},
		func(t *T) tgt.Case { c := base(t, 20); sed(t, &c); anyFrame(t, &c); return c },
		perLine(func(c *tgt.Case, i int, kept []int) string {
			return overThreshold(&c.Lines[i], kept, c.Opt.Threshold, true)
		}, someDropped))

	run.Register(run.Prop{ID: "C04", Quick: 300000, Thorough: 1500000,
		Rule: "random lines and trajectories under random constraint options and constraint objects; non-trivial when a vertex was dropped and an option was on"},
		func(t *T) tgt.Case {
			c := base(t, 30)
			if gen.Chance(t, 30, "sed") {
				sedUp(t, &c)
			}
			if gen.Chance(t, 70, "some") {
				c.Opt.AvoidSelf = gen.Chance(t, 60, "avoid0")
				c.Opt.Geom = gen.Chance(t, 60, "geom0")
			}
			others(t, &c)
			if c.Opt.Geom && len(c.Cons) == 0 {
				context(t, &c)
			}
			frame(t, &c)
			return c
		},
		perLine(func(c *tgt.Case, i int, kept []int) string {
			return farFromLine(&c.Lines[i], kept, 3*c.Opt.Threshold, c.SED)
		}, func(c *tgt.Case, kept [][]int) bool {
			o := c.Opt
			return dropped(c, kept) > 0 && (o.AvoidSelf || o.Geom || o.Dist || o.Dir || o.Planar || o.NonPlanar)
		}))

	run.Register(run.Prop{ID: "C05", Quick: 500000, Thorough: 2000000,
		Rule: "random lines and 1-45 point/line/polygon constraints near them, geometric relation on, other options at random; non-trivial when some replaced stretch has a constraint in its bounding box"},
		func(t *T) tgt.Case {
			c := base(t, 20)
			if gen.Chance(t, 20, "sed") {
				sed(t, &c)
			}
			c.Opt.Geom = true
			context(t, &c)
			others(t, &c)
			frame(t, &c)
			return c
		},
		perLine(func(c *tgt.Case, i int, kept []int) string {
			m, _ := geomRelation(&c.Lines[i], kept, c.Cons)
			return m
		}, nearContext))

	run.Register(run.Prop{ID: "C06", Quick: 500000, Thorough: 2000000,
		Rule: "random lines and constraints, distance relation on with any minimum distance, other options at random; non-trivial when a replaced stretch keeps the minimum distance to some constraint and has it within twice that distance of its bounding box"},
		func(t *T) tgt.Case {
			c := base(t, 20)
			if gen.Chance(t, 20, "sed") {
				sed(t, &c)
			}
			c.Opt.Dist = true
			context(t, &c)
			c.Opt.MinDist = minDist(t, &c)
			others(t, &c)
			frame(t, &c)
			return c
		},
		perLine(func(c *tgt.Case, i int, kept []int) string {
			return distRelation(&c.Lines[i], kept, c.Cons, c.Opt.MinDist)
		}, nearContext))

	run.Register(run.Prop{ID: "C07", Quick: 400000, Thorough: 2000000,
		Rule: "random lines and constraints, homotopy (side) relation on, other options at random; non-trivial when a replaced stretch has a constraint in its bounding box"},
		func(t *T) tgt.Case {
			c := base(t, 20)
			if gen.Chance(t, 20, "sed") {
				sed(t, &c)
			}
			c.Opt.Dir = true
			context(t, &c)
			others(t, &c)
			frame(t, &c)
			return c
		},
		perLine(func(c *tgt.Case, i int, kept []int) string {
			return homotopy(&c.Lines[i], kept, c.Cons)
		}, nearContext))

	run.Register(run.Prop{ID: "C08", Quick: 380000, Thorough: 2000000,
		Rule: "random lines (simple and self-crossing), avoidance of new self-intersections on, other options at random, single and feature class; non-trivial when plain simplification of the same case would add a self-intersection or two replaced stretches have overlapping boxes"},
		func(t *T) tgt.Case {
			c := base(t, 25)
			if gen.Chance(t, 20, "sed") {
				sed(t, &c)
			}
			c.Opt.AvoidSelf = true
			if gen.Chance(t, 50, "disp") {
				c.Opt.Disp = gen.Threshold(t)
			}
			others(t, &c)
			frame(t, &c)
			return c
		},
		perLine(func(c *tgt.Case, i int, kept []int) string {
			return newSelfInters(&c.Lines[i], kept)
		}, overlapping))

	run.Register(run.Prop{ID: "C09", Quick: 700000, Thorough: 2000000,
		Rule: "random lines that revisit vertices, planar self option on, other options at random, with and without extra junction vertices passed in (then now and then with the non planar option instead); non-trivial when a vertex occurs more than once and another vertex was dropped"},
		func(t *T) juncCase {
			var c juncCase
			c.Case = base(t, 0)
			c.Opt.Planar = true
			if gen.Chance(t, 20, "sed") {
				sed(t, &c.Case)
			}
			others(t, &c.Case)
			if gen.Chance(t, 30, "junctions") {
				n := len(c.Lines[0].Pts)
				for k := gen.I(t, 1, 4, "nj"); k > 0; k-- {
					c.Junctions = append(c.Junctions, gen.I(t, 0, n-1, "j"))
				}
				if gen.Chance(t, 25, "non planar only") {
					c.Opt.Planar, c.Opt.NonPlanar = false, true
				}
			}
			anyFrame(t, &c.Case)
			return c
		},
		func(c *juncCase) run.Result {
			kept := c.RunJunctions(c.Junctions)
			for i := range kept {
				if m := badKept(kept[i], len(c.Lines[i].Pts)); m != "" {
					return run.Result{Fail: m}
				}
			}
			want := repeated(c.Lines)[0]
			if !c.Opt.Planar {
				want = nil
			}
			if v, bad := missing(kept[0], want); bad {
				return run.Failf("vertex %d occurs more than once on the line and was dropped; kept %v", v, kept[0])
			}
			if v, bad := missing(kept[0], c.Junctions); bad {
				return run.Failf("junction vertex %d was dropped; kept %v", v, kept[0])
			}
			return run.Result{NonTrivial: len(want)+len(c.Junctions) > 0 && dropped(&c.Case, kept) > 0, Labels: labels(&c.Case, kept)}
		})

	run.Register(run.Prop{ID: "C10", Quick: 400000, Thorough: 2000000,
		Rule: "random self-crossing lines, non planar self option on (planar at random), other options at random; non-trivial when two segments meet away from a common vertex and some vertex was dropped"},
		func(t *T) tgt.Case {
			c := base(t, 15)
			c.Opt.NonPlanar = true
			if gen.Chance(t, 20, "sed") {
				sed(t, &c)
			}
			others(t, &c)
			frame(t, &c)
			return c
		},
		perLine(func(c *tgt.Case, i int, kept []int) string {
			if v, bad := missing(kept, crossingEnds(c.Lines[i].Pts)); bad {
				return fmt.Sprintf("vertex %d bounds a self-crossing segment and was dropped", v)
			}
			return ""
		}, func(c *tgt.Case, kept [][]int) bool {
			return len(crossingEnds(c.Lines[0].Pts)) > 0 && dropped(c, kept) > 0
		}))

	run.Register(run.Prop{ID: "C11", Quick: 380000, Thorough: 1500000,
		Rule: "feature classes (networks, coverages, contours, random sets of 2-25 lines) with shared vertices, planar option on, other options at random; non-trivial when two lines share a vertex and some vertex was dropped"},
		func(t *T) tgt.Case {
			c := base(t, 100)
			c.Opt.Planar = true
			if gen.Chance(t, 20, "sed") {
				sed(t, &c)
			}
			others(t, &c)
			anyFrame(t, &c)
			return c
		},
		func(c *tgt.Case) run.Result {
			kept, m := shape(c)
			if m != "" {
				return run.Result{Fail: m}
			}
			shared := false
			for i, want := range repeated(c.Lines) {
				if v, bad := missing(kept[i], want); bad {
					return run.Failf("vertex %d of line %d is shared and was dropped; kept %v", v, i, kept[i])
				}
				shared = shared || len(want) > 0
			}
			return run.Result{NonTrivial: shared && dropped(c, kept) > 0, Labels: labels(c, kept)}
		})

	run.Register(run.Prop{ID: "C12", Quick: 220000, Thorough: 800000,
		Rule: "feature classes of 2-25 lines, avoidance of new intersections on, other options at random; non-trivial when replaced stretches of two lines have overlapping boxes"},
		func(t *T) tgt.Case {
			c := base(t, 100)
			c.Opt.AvoidSelf = true
			if gen.Chance(t, 50, "disp") {
				c.Opt.Disp = gen.Threshold(t)
			}
			if gen.Chance(t, 15, "sed") {
				sed(t, &c)
			}
			others(t, &c)
			frame(t, &c)
			return c
		},
		func(c *tgt.Case) run.Result {
			kept, m := shape(c)
			if m != "" {
				return run.Result{Fail: m}
			}
			for i := range kept {
				for j := 0; j < i; j++ {
					if m := crossInters(c.Lines[i].Pts, c.Lines[j].Pts, kept[i], kept[j]); m != "" {
						return run.Failf("lines %d and %d: %s; kept %v %v", i, j, m, kept[i], kept[j])
					}
				}
			}
			return run.Result{NonTrivial: overlapping(c, kept), Labels: labels(c, kept)}
		})

	run.Register(run.Prop{ID: "C13", Quick: 320000, Thorough: 1200000,
		Rule: "self-crossing lines and feature classes, avoidance of new intersections on with any displacement, other options at random; non-trivial when two replaced stretches meet"},
		func(t *T) tgt.Case {
			c := base(t, 40)
			c.Opt.AvoidSelf = true
			c.Opt.Disp = gen.Threshold(t)
			if gen.Chance(t, 15, "sed") {
				sed(t, &c)
			}
			others(t, &c)
			frame(t, &c)
			return c
		},
		func(c *tgt.Case) run.Result {
			kept, m := shape(c)
			if m != "" {
				return run.Result{Fail: m}
			}
			met := false
			for i := range kept {
				for j := 0; j <= i; j++ {
					A, B := c.Lines[i].Pts, c.Lines[j].Pts
					if m := lostInters(A, B, kept[i], kept[j], i == j); m != "" {
						return run.Failf("lines %d and %d: %s; kept %v %v", i, j, m, kept[i], kept[j])
					}
					if m := displaced(A, B, kept[i], kept[j], i == j, c.Opt.Disp); m != "" {
						return run.Failf("lines %d and %d: %s; kept %v %v", i, j, m, kept[i], kept[j])
					}
					met = met || stretchesMeet(A, B, kept[i], kept[j], i == j)
				}
			}
			return run.Result{NonTrivial: met, Labels: labels(c, kept)}
		})
}

type juncCase struct {
	tgt.Case
	Junctions []int `json:"junctions,omitempty"`
}

func bbox(ps []geo.P) (a, b geo.P) {
	a, b = ps[0], ps[0]
	for _, p := range ps {
		a = geo.P{min(a[0], p[0]), min(a[1], p[1])}
		b = geo.P{max(b[0], p[0]), max(b[1], p[1])}
	}
	return
}

func boxesMeet(p, q []geo.P, pad float64) bool {
	a, b := bbox(p)
	c, d := bbox(q)
	return float64(max(a[0], c[0]))-pad <= float64(min(b[0], d[0])) && float64(max(a[1], c[1]))-pad <= float64(min(b[1], d[1]))
}

// nearContext: some replaced stretch has a constraint near.
func nearContext(c *tgt.Case, kept [][]int) bool {
	for i, k := range kept {
		for _, p := range pieces(k) {
			if p.j-p.i < 2 {
				continue
			}
			for x := range c.Cons {
				o := &c.Cons[x]
				if boxesMeet(p.path(c.Lines[i].Pts), o.Rings[0], 2*c.Opt.MinDist) {
					if c.Opt.Dist && o.Dist(p.path(c.Lines[i].Pts)) < c.Opt.MinDist {
						continue
					}
					return true
				}
			}
		}
	}
	return false
}

// overlapping: two replaced stretches (at least one with dropped vertices) of
// the case have overlapping boxes.
func overlapping(c *tgt.Case, kept [][]int) bool {
	for i := range kept {
		for j := 0; j <= i; j++ {
			for x, p := range pieces(kept[i]) {
				for y, q := range pieces(kept[j]) {
					if i == j && y >= x-1 {
						break
					}
					if p.j-p.i < 2 && q.j-q.i < 2 {
						continue
					}
					if boxesMeet(p.path(c.Lines[i].Pts), q.path(c.Lines[j].Pts), 0) {
						return true
					}
				}
			}
		}
	}
	return false
}

func stretchesMeet(A, B []geo.P, ka, kb []int, same bool) bool {
	for x, p := range pieces(ka) {
		for y, q := range pieces(kb) {
			if same && y <= x+1 || p.j-p.i < 2 && q.j-q.i < 2 {
				continue
			}
			if geo.PathPath(p.path(A), q.path(B)) {
				return true
			}
		}
	}
	return false
}
