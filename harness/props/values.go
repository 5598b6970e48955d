package props

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/ctx"
	"github.com/TopoSimplify/plugin/dp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
	"github.com/intdxdt/mbr"

	"verifharness/gen"
	"verifharness/run"
	"verifharness/tgt"
)

type valueCase struct {
	tgt.Case
	From int   `json:"from"`
	To   int   `json:"to"`
	Tags []int `json:"tags"`
	R    []int `json:"r"`
	// Set is the number of constraints of an instance, Set2 that of another
	// one that is given a part of the same list.
	Set  int `json:"set,omitempty"`
	Set2 int `json:"set2,omitempty"`
}

// heldExactly compares the constraints an instance holds with those it was
// given.
func heldExactly(s *constdp.ConstDP, given []geometry.IGeometry) string {
	all := s.ContextDB.All()
	if len(all) != len(given) {
		return fmt.Sprintf("an instance holds %d of %d constraints", len(all), len(given))
	}
	count := map[mbr.MBR]int{}
	for _, g := range given {
		count[g.Geometry().Bounds()]++
	}
	for _, n := range all {
		b := n.Geom.Bounds()
		if count[b]--; count[b] < 0 || n.BBox() == nil || *n.BBox() != b {
			return fmt.Sprintf("an instance with %d constraints holds one at %v (box %v) that was not given", len(given), b, n.BBox())
		}
	}
	return ""
}

// checkHeld builds instances on one list of constraints, on parts of it, and on
// the list after one of its members was replaced.
func checkHeld(c *valueCase, pln *geometry.Polyline, o *opts.Opts) string {
	geoms := make([]geometry.IGeometry, 0, c.Set)
	for i := 0; i < c.Set; i++ {
		geoms = append(geoms, geometry.CreatePoint("p", []float64{float64(i % 23), float64(i * i % 101)}, ""))
	}
	score := mustScore(&c.Case)
	part := geoms[:min(c.Set2, c.Set)]
	a := constdp.NewConstDP(1, pln, part, o, score)
	b := constdp.NewConstDP(2, pln, geoms, o, score)
	if m := heldExactly(a, part); m != "" {
		return m
	}
	if m := heldExactly(b, geoms); m != "" {
		return m
	}
	before := append([]geometry.IGeometry{}, geoms...)
	if c.Set > 0 {
		geoms[c.Set2%c.Set] = geometry.CreatePoint("q", []float64{-7, 5000}, "")
	}
	if m := heldExactly(b, before); m != "" {
		return m
	}
	d := constdp.NewConstDP(3, pln, geoms, o, score)
	if m := heldExactly(d, geoms); m != "" {
		return m
	}
	return heldExactly(d.BuildContextDB(part), part)
}

// tags of a context geometry, with their setters and tests.
var tags = []struct {
	name string
	set  func(*ctx.ContextGeometry) *ctx.ContextGeometry
	is   func(*ctx.ContextGeometry) bool
}{
	{"self", (*ctx.ContextGeometry).AsSelf, (*ctx.ContextGeometry).IsSelf},
	{"planar vertex", (*ctx.ContextGeometry).AsPlanarVertex, (*ctx.ContextGeometry).IsPlanarVertex},
	{"non planar vertex", (*ctx.ContextGeometry).AsNonPlanarVertex, (*ctx.ContextGeometry).IsNonPlanarVertex},
	{"planar segment", (*ctx.ContextGeometry).AsPlanarSegment, (*ctx.ContextGeometry).IsPlanarSegment},
	{"linear simple", (*ctx.ContextGeometry).AsLinearSimple, (*ctx.ContextGeometry).IsLinearSimple},
	{"context neighbour", (*ctx.ContextGeometry).AsContextNeighbour, (*ctx.ContextGeometry).IsContextNeighbour},
}

func pointsAre(what string, got geom.Coords, want [][]float64) string {
	if got.Len() != len(want) {
		return fmt.Sprintf("%s has %d points, want %d", what, got.Len(), len(want))
	}
	for i := range want {
		p := got.Pt(i)
		for k, v := range want[i] {
			if p[k] != v {
				return fmt.Sprintf("point %d of %s is %v, want %v", i, what, *p, want[i])
			}
		}
	}
	return ""
}

func checkValues(c *valueCase) run.Result {
	raw := c.Coords(c.Lines[0])
	n := len(raw)
	pln := geometry.CreatePolyline("the id", geom.AsCoordinates(raw), "the meta")
	r := rng.Range(c.From, c.To)
	sub := raw[c.From : c.To+1]

	// views of a line
	if pln.Len() != n || pln.Range() != rng.Range(0, n-1) || pln.Id != "the id" || pln.Meta != "the meta" {
		return run.Failf("a line of %d vertices has length %d, range %v, id %q, meta %q", n, pln.Len(), pln.Range(), pln.Id, pln.Meta)
	}
	if m := pointsAre("the stretch", pln.SubCoordinates(r), sub); m != "" {
		return run.Result{Fail: m}
	}
	if m := pointsAre("the shared stretch", common.SubCoordinates(pln.LineString, r), sub); m != "" {
		return run.Result{Fail: m}
	}
	sp := pln.SubPolyline(r)
	if m := pointsAre("the part line", sp.Coordinates, sub); m != "" {
		return run.Result{Fail: m}
	}
	if sp.Id != pln.Id || sp.Meta != pln.Meta || sp.Len() != len(sub) || sp.Range() != r {
		return run.Failf("the part %v of the line has length %d, range %v, id %q, meta %q", r, sp.Len(), sp.Range(), sp.Id, sp.Meta)
	}
	if m := pointsAre("the segment", pln.Segment(c.From, c.To).Coords, [][]float64{raw[c.From], raw[c.To]}); m != "" {
		return run.Result{Fail: m}
	}
	for _, v := range []struct {
		ln *geometry.Polyline
		at int
	}{{pln, 0}, {sp, c.From}} {
		bs := v.ln.SegmentBounds()
		if len(bs) != v.ln.Len()-1 {
			return run.Failf("%d segment boxes for %d vertices", len(bs), v.ln.Len())
		}
		for k, b := range bs {
			i := v.at + k // positions are those of the whole line
			p, q := raw[i], raw[i+1]
			if b.I != i || b.J != i+1 || b.MinX != math.Min(p[0], q[0]) || b.MaxX != math.Max(p[0], q[0]) || b.MinY != math.Min(p[1], q[1]) || b.MaxY != math.Max(p[1], q[1]) {
				return run.Failf("box of segment %d of the part from %d: %v", k, v.at, b)
			}
		}
	}
	if m := pointsAre("the line", pln.Coordinates, raw); m != "" {
		return run.Failf("views changed the line: %s", m)
	}
	if short := geometry.CreatePolyline("s", geom.AsCoordinates(raw[:1]), "m"); short.LineString != nil || short.Id != "s" || short.Meta != "m" {
		return run.Failf("a line of one vertex is %v", short)
	} else if h := dp.New(1, short, c.Opts(), mustScore(&c.Case)).Decompose(iter.NewIgen()); len(h) != 0 {
		return run.Failf("a line of one vertex falls into %d stretches", len(h))
	}

	// ranges
	a, b := rng.Range(c.R[0], c.R[1]), rng.Range(c.R[2], c.R[3])
	if a.Equals(b) != (c.R[0] == c.R[2] && c.R[1] == c.R[3]) || !a.Equals(a) {
		return run.Failf("ranges %v and %v are equal: %v", a, b, a.Equals(b))
	}
	if a.Contiguous(b) != (c.R[1] == c.R[2] && c.R[0] < c.R[3] || c.R[3] == c.R[0] && c.R[2] < c.R[1]) {
		return run.Failf("ranges %v and %v are contiguous: %v", a, b, a.Contiguous(b))
	}
	if (a.String() == b.String()) != a.Equals(b) {
		return run.Failf("ranges %v and %v print as %s and %s", a, b, a.String(), b.String())
	}

	// options
	var back opts.Opts
	o := c.Opts()
	if err := json.Unmarshal([]byte(o.String()), &back); err != nil || back != *o {
		return run.Failf("options %+v print as %s", *o, o.String())
	}

	if c.Set2 > 0 {
		if m := checkHeld(c, pln, o); m != "" {
			return run.Result{Fail: m}
		}
	}

	// context objects
	geoms := c.Constraints()
	probe := geom.NewLineString(geom.AsCoordinates(raw))
	var list []*ctx.ContextGeometry
	var objs []interface{}
	for i, g := range geoms {
		cg := ctx.New(g, (i*7)%11, -1-i)
		if !cg.IsSelf() || cg.I != (i*7)%11 || cg.J != -1-i {
			return run.Failf("new context object: type %q, %d, %d", cg.CtxType, cg.I, cg.J)
		}
		for _, k := range c.Tags {
			if tags[k].set(cg) != cg {
				return run.Failf("marking an object as %s gives another object", tags[k].name)
			}
			for q := range tags {
				if tags[q].is(cg) != (q == k) {
					return run.Failf("an object marked as %s is a %s: %v", tags[k].name, tags[q].name, tags[q].is(cg))
				}
			}
		}
		gg := g.Geometry()
		if cg.Intersects(probe) != gg.Intersects(probe) || cg.Distance(probe) != gg.Distance(probe) ||
			cg.WKT() != gg.WKT() || cg.String() != gg.WKT() || cg.Type() != gg.Type() || len(cg.AsLinear()) != len(gg.AsLinear()) ||
			cg.Bounds() != gg.Bounds() || *cg.BBox() != gg.Bounds() || fmt.Sprint(cg.Intersection(probe)) != fmt.Sprint(gg.Intersection(probe)) {
			return run.Failf("context object %d does not answer like its geometry %s", i, gg.WKT())
		}
		list = append(list, cg)
		objs = append(objs, cg)
	}
	half := len(list) / 2
	sets := []*ctx.ContextGeometries{
		ctx.NewContexts(list...),
		ctx.NewContextsFromObjects(objs),
		ctx.NewContexts(append([]*ctx.ContextGeometry{}, list[:half]...)...).Extend(list[half:]),
		list[0].AsContextGeometries(list[1:]...),
		ctx.NewContexts().SetData(append([]*ctx.ContextGeometry{}, list...)),
	}
	for k, s := range sets {
		if s.Len() != len(list) || len(s.DataView()) != len(list) {
			return run.Failf("set %d holds %d of %d objects", k, s.Len(), len(list))
		}
		for i, v := range s.DataView() {
			if v != list[i] {
				return run.Failf("set %d has another object at %d", k, i)
			}
		}
	}
	s := sets[2].Push(list[0]).Sort()
	count := map[*ctx.ContextGeometry]int{}
	for i, v := range s.DataView() {
		count[v]++
		if i > 0 && v.I < s.DataView()[i-1].I {
			return run.Failf("sorted set is out of order at %d", i)
		}
	}
	for i, v := range list {
		if w := count[v]; w != 1 && !(i == 0 && w == 2) {
			return run.Failf("sorting a set changed its members")
		}
	}

	// keys of pairs of stretches
	x := constdp.NewConstDP(3, pln, nil, o, mustScore(&c.Case))
	coords := geom.AsCoordinates(raw)
	mk := func(i, j int) *node.Node {
		h := common.CreateHulls(iter.NewIgen(), [][]int{{i, j}}, coords, x)[0]
		return &h
	}
	if c.From > 0 {
		h, g := mk(0, c.From), mk(c.From, c.To)
		if constdp.CacheKey(h, g) != constdp.CacheKey(g, h) {
			return run.Failf("the key of two stretches depends on their order")
		}
		if c.To < n-1 && constdp.CacheKey(h, g) == constdp.CacheKey(h, mk(c.From, c.To+1)) {
			return run.Failf("two pairs of stretches have one key")
		}
		if h.String() != h.Geom.WKT() || h.Geometry() != h.Geom || strings.TrimSpace(h.String()) == "" {
			return run.Failf("a stretch prints as %q", h.String())
		}
		ns := []node.Node{*h, *g}
		if node.Pop(&ns); len(ns) != 1 || ns[0].Range != h.Range {
			return run.Failf("taking the last stretch off leaves %v", ns)
		}
		if node.Clear(&ns); len(ns) != 0 {
			return run.Failf("clearing leaves %d stretches", len(ns))
		}
	}
	ints := append([]int{}, c.R...)
	if common.SortInts(ints); !sort.IntsAreSorted(ints) || ints[0] != min(c.R[0], c.R[1], c.R[2], c.R[3]) {
		return run.Failf("%v sorts to %v", c.R, ints)
	}
	p, q := &geom.Point{1, 2, float64(c.R[0])}, &geom.Point{9, -2, float64(c.R[1])}
	if d := constdp.PointIndexCmp(p, q); d != compare(c.R[0], c.R[1]) {
		return run.Failf("hull points %v and %v compare as %d", *p, *q, d)
	}
	return run.Result{NonTrivial: len(list) > 1 && len(c.Tags) > 1 && len(sub) > 2, Labels: []string{"family:" + c.Fam}}
}

func compare(a, b int) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func mustScore(c *tgt.Case) func(geom.Coords) (int, float64) {
	s, _ := c.ScoreFns()
	return s
}

func init() {
	run.Register(run.Prop{ID: "C36", Quick: 120000, Thorough: 600000,
		Rule: "stretches, part lines and segments of a line, ranges, options, context objects with any sequence of tags and sets of them, and keys of pairs, against the plain arrays they stand for; non-trivial when the stretch has inner vertices, several objects and several tags"},
		func(t *T) valueCase {
			var c valueCase
			c.Case = wide(t, 0)
			if len(c.Cons) == 0 {
				context(t, &c.Case)
			}
			if len(c.Cons) > 12 {
				c.Cons = c.Cons[:12]
			}
			n := len(c.Lines[0].Pts)
			c.From = gen.I(t, 0, n-2, "from")
			c.To = gen.I(t, c.From+1, n-1, "to")
			for k := gen.I(t, 0, 8, "nt"); k > 0; k-- {
				c.Tags = append(c.Tags, gen.I(t, 0, len(tags)-1, "tag"))
			}
			for k := 0; k < 4; k++ {
				c.R = append(c.R, gen.I(t, 0, 6, "r"))
			}
			if gen.Chance(t, 20, "set") {
				c.Set = gen.Count(t)
				c.Set2 = gen.I(t, 1, max(1, c.Set), "set2")
			}
			frame(t, &c.Case)
			return c
		}, checkValues)
}
