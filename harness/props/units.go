package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/dp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/merge"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/TopoSimplify/plugin/split"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"

	"verifharness/gen"
	"verifharness/geo"
	"verifharness/run"
	"verifharness/tgt"
)

// offsetAt is the exact-input offset of vertex k from chord (i, j), grid units.
func offsetAt(l *tgt.Line, i, j, k int, sed bool) float64 {
	if !sed {
		return dpDist(l, i, j, k)
	}
	return sedDist(l, i, j, k)
}

func polyline(c *tgt.Case, i int) *geometry.Polyline {
	return geometry.CreatePolyline("l", geom.AsCoordinates(c.Coords(c.Lines[i])), "")
}

func plainDP(c *tgt.Case) []int {
	score, sq := c.ScoreFns()
	d := dp.New(1, polyline(c, 0), c.Opts(), score, sq...)
	return d.Simplify(iter.NewIgen()).Simple()
}

// dpTree checks kept against the recursive definition of Douglas-Peucker,
// leaving ties (within rounding) open.
func dpTree(l *tgt.Line, kept []int, thr float64, sed bool) string {
	keep := map[int]bool{}
	for _, k := range kept {
		keep[k] = true
	}
	memo := map[[2]int]string{}
	var rec func(i, j int) string
	rec = func(i, j int) string {
		if j-i < 2 {
			return ""
		}
		if m, ok := memo[[2]int{i, j}]; ok {
			return m
		}
		best, any := 0.0, false
		offs := make([]float64, j-i+1)
		for k := i + 1; k < j; k++ {
			offs[k-i] = offsetAt(l, i, j, k, sed)
			best = math.Max(best, offs[k-i])
			any = any || keep[k]
		}
		eps := 1e-7 * (1 + best)
		m := ""
		switch {
		case !any && best > thr+eps:
			m = fmt.Sprintf("range (%d,%d) was not split although a vertex is %g > %g off", i, j, best, thr)
		case any && best < thr-eps:
			m = fmt.Sprintf("range (%d,%d) was split although every vertex is within %g <= %g", i, j, best, thr)
		case any:
			m = fmt.Sprintf("range (%d,%d) was not split at its farthest vertex (offset %g)", i, j, best)
			for k := i + 1; k < j; k++ {
				if keep[k] && offs[k-i] >= best-eps {
					if m = rec(i, k); m == "" {
						m = rec(k, j)
					}
					if m == "" {
						break
					}
				}
			}
		}
		memo[[2]int{i, j}] = m
		return m
	}
	return rec(0, len(l.Pts)-1)
}

type dpCase struct {
	tgt.Case
	Thr2 float64 `json:"thr2"`
}

type rangeCase struct {
	I     int   `json:"i"`
	N     int   `json:"n"`
	Cut   []int `json:"cut"`
	Step  int   `json:"step"`
	Other []int `json:"other"`
}

type pieceCase struct {
	tgt.Case
	Cut []int `json:"cut"`
	At  int   `json:"at"`
}

type viewCase struct {
	tgt.Case
	From int `json:"from"`
	To   int `json:"to"`
}

func init() {
	run.Register(run.Prop{ID: "C20", Quick: 820000, Thorough: 2000000,
		Rule: "one line of any family (up to 400 vertices) with two thresholds, planar or time-synchronised offsets, plain or squared score, any frame; plain Douglas-Peucker against the recursive definition, nested in the threshold, stable under repetition and no coarser than the constrained simplifier with no option set; non-trivial when some interior vertex is kept and some dropped"},
		func(t *T) dpCase {
			var c dpCase
			c.Case = base(t, 0)
			if gen.Chance(t, 35, "sed") {
				sed(t, &c.Case)
			}
			c.Thr2 = c.Opt.Threshold + gen.Threshold(t)
			anyFrame(t, &c.Case)
			return c
		},
		func(c *dpCase) run.Result {
			l := &c.Lines[0]
			kept := plainDP(&c.Case)
			if m := badKept(kept, len(l.Pts)); m != "" {
				return run.Result{Fail: m}
			}
			if m := dpTree(l, kept, c.Opt.Threshold, c.SED); m != "" {
				return run.Failf("%s; kept %v", m, kept)
			}
			d := c.Case
			d.Opt.Threshold = c.Thr2
			coarse := plainDP(&d)
			if w, bad := missing(kept, coarse); bad {
				return run.Failf("threshold %g keeps vertex %d, the smaller threshold %g does not: %v, %v", c.Thr2, w, c.Opt.Threshold, coarse, kept)
			}
			again := c.Case
			again.Lines = []tgt.Line{sub(l, kept)}
			if k := plainDP(&again); len(k) != len(kept) {
				return run.Failf("simplifying the result again drops more: %d of %d vertices", len(k), len(kept))
			}
			free := c.Case
			free.Cons, free.FC = nil, false
			free.Opt = tgt.Options{Threshold: c.Opt.Threshold}
			k := free.Run()
			if w, bad := missing(kept, k[0]); bad {
				return run.Failf("the constrained simplifier without options keeps vertex %d (%v), plain Douglas-Peucker does not: %v", w, k[0], kept)
			}
			return run.Result{NonTrivial: len(kept) > 2 && len(kept) < len(l.Pts), Labels: labels(&c.Case, [][]int{kept})}
		})

	run.Register(run.Prop{ID: "C21", Quick: 1930000, Thorough: 3000000,
		Rule: "a range i..j, cut positions inside, outside, unsorted and repeated, strides of any step; pieces of a line split at cuts and at the best score and joined again in either order; against set-based definitions, with the inputs compared before and after; non-trivial when a cut falls inside the range"},
		func(t *T) pieceCase {
			var c pieceCase
			c.Case = base(t, 0)
			n := len(c.Lines[0].Pts)
			for k := gen.I(t, 0, 8, "nc"); k > 0; k-- {
				c.Cut = append(c.Cut, gen.I(t, -2, n+1, "cut"))
			}
			c.At = gen.I(t, 0, max(0, n-2), "at")
			frame(t, &c.Case)
			return c
		},
		checkPieces)

	run.Register(run.Prop{ID: "C22", Quick: 2400000, Thorough: 4000000,
		Rule: "sub-ranges of lines in any frame, with increasing, equal, decreasing or arbitrary times in any unit; each of the four score functions against the definition of the offset (maximum over interior vertices; the index attains it; squared is the square; a view scores like a copy); non-trivial when two interior vertices have different offsets"},
		func(t *T) viewCase {
			var c viewCase
			c.Case = base(t, 0)
			l := &c.Lines[0]
			l.T = gen.Times(t, len(l.Pts))
			if gen.Chance(t, 30, "odd times") {
				l.T = gen.AnyTimes(t, len(l.Pts))
			}
			c.From = gen.I(t, 0, len(l.Pts)-2, "from")
			c.To = gen.I(t, c.From+1, len(l.Pts)-1, "to")
			anyFrame(t, &c.Case)
			return c
		},
		checkScores)

	run.Register(run.Prop{ID: "C23", Quick: 930000, Thorough: 2000000,
		Rule: "one line or a feature class of any family; reported planar vertices and non planar crossings of a line, and shared vertices of a class, against all pairs of vertices and of segments; non-trivial when something is to be reported",
	},
		func(t *T) tgt.Case {
			c := base(t, 50)
			if gen.Chance(t, 50, "frame") { // coordinates stay exact
				c.Off = geo.P{int64(gen.I(t, -1000, 1000, "ox")), int64(gen.I(t, -1000, 1000, "oy"))}
				c.Sym = gen.I(t, 0, 7, "sym")
			}
			return c
		},
		checkDetection)
}

func sub(l *tgt.Line, kept []int) tgt.Line {
	var o tgt.Line
	for _, k := range kept {
		o.Pts = append(o.Pts, l.Pts[k])
		if len(l.T) > 0 {
			o.T = append(o.T, l.T[k])
		}
	}
	return o
}

func checkPieces(c *pieceCase) run.Result {
	// ranges
	n := len(c.Lines[0].Pts)
	r := rng.Range(0, n-1)
	arg := append([]int{}, c.Cut...)
	set := map[int]bool{}
	for _, k := range c.Cut {
		if k > 0 && k < n-1 {
			set[k] = true
		}
	}
	var want [][2]int
	at := 0
	for k := 1; k < n && len(set) > 0; k++ {
		if set[k] || k == n-1 {
			want = append(want, [2]int{at, k})
			at = k
		}
	}
	got := r.Split(arg)
	if !reflect.DeepEqual(arg, append([]int{}, c.Cut...)) {
		return run.Failf("splitting a range changed the caller's positions: %v, were %v", arg, c.Cut)
	}
	if m := sameRanges(got, want); m != "" {
		return run.Failf("range (0,%d) split at %v: %s", n-1, c.Cut, m)
	}
	// a range that does not start at 0
	lo := 7
	shifted := make([]int, len(c.Cut))
	for i, k := range c.Cut {
		shifted[i] = k + lo
	}
	for i := range want {
		want[i][0] += lo
		want[i][1] += lo
	}
	q := rng.Range(lo, lo+n-1)
	if m := sameRanges(q.Split(shifted), want); m != "" {
		return run.Failf("range %v split at %v: %s", q, shifted, m)
	}
	if q.Size() != n-1 || q.AsArray() != [2]int{lo, lo + n - 1} || !reflect.DeepEqual(q.AsSlice(), []int{lo, lo + n - 1}) {
		return run.Failf("size or ends of range %v: %v %v %v", q, q.Size(), q.AsArray(), q.AsSlice())
	}
	step := 1 + c.At%5
	var all, inner []int
	for k := lo; k <= lo+n-1; k += step {
		all = append(all, k)
	}
	for k := lo + 1; k < lo+n-1; k += step {
		inner = append(inner, k)
	}
	if s := q.Stride(step); !equalInts(s, all) {
		return run.Failf("stride %d of %v is %v", step, q, s)
	}
	if s := q.ExclusiveStride(step); !equalInts(s, inner) {
		return run.Failf("exclusive stride %d of %v is %v", step, q, s)
	}
	// pieces of a line
	coords := geom.AsCoordinates(c.Coords(c.Lines[0]))
	id := iter.NewIgen()
	hull := common.CreateHulls(id, [][]int{{0, n - 1}}, coords, nil)[0]
	parts := split.AtIndex(id, &hull, append([]int{}, c.Cut...), common.Geometry)
	for i := range want {
		want[i][0] -= lo
		want[i][1] -= lo
	}
	var rs []rng.Rng
	for i := range parts {
		rs = append(rs, parts[i].Range)
	}
	if m := sameRanges(rs, want); m != "" {
		return run.Failf("piece (0,%d) split at %v: %s", n-1, c.Cut, m)
	}
	for i := range parts {
		if m := pieceOf(&parts[i], coords); m != "" {
			return run.Failf("split at %v: %s", c.Cut, m)
		}
	}
	// split a piece again, not starting at 0
	if k := len(parts); k > 0 {
		h := &parts[c.At%k]
		if h.Range.Size() > 1 {
			mid := h.Range.I + 1 + c.At%(h.Range.Size()-1)
			two := split.AtIndex(id, h, []int{mid, h.Range.I, h.Range.J}, common.Geometry)
			if len(two) != 2 {
				return run.Failf("piece %v split at %d gives %d pieces", h.Range, mid, len(two))
			}
			for i := range two {
				if m := pieceOf(&two[i], coords); m != "" {
					return run.Failf("piece %v split at %d: %s", h.Range, mid, m)
				}
			}
			if two[0].Range != rng.Range(h.Range.I, mid) || two[1].Range != rng.Range(mid, h.Range.J) {
				return run.Failf("piece %v split at %d gives %v %v", h.Range, mid, two[0].Range, two[1].Range)
			}
			if m := joined(&two[0], &two[1], coords); m != "" {
				return run.Result{Fail: m}
			}
			if m := pieceOf(h, coords); m != "" {
				return run.Failf("splitting changed the piece: %s", m)
			}
		}
	}
	for i := 0; i+1 < len(parts); i++ {
		if m := joined(&parts[i], &parts[i+1], coords); m != "" {
			return run.Result{Fail: m}
		}
	}
	if len(parts) > 2 && !mustPanic(func() { merge.ContiguousCoordinates(&parts[0], &parts[2]) }) {
		return run.Failf("joining pieces %v and %v that do not meet was accepted", parts[0].Range, parts[2].Range)
	}
	if n > 2 {
		score, _ := c.ScoreFns()
		a, b := split.AtScoreSelection(id, &hull, score, common.Geometry)
		k, _ := score(coords)
		if a.Range != rng.Range(0, k) || b.Range != rng.Range(k, n-1) {
			return run.Failf("split at the best score (vertex %d) gives %v %v", k, a.Range, b.Range)
		}
		for _, h := range []*node.Node{&a, &b} {
			if m := pieceOf(h, coords); m != "" {
				return run.Failf("split at the best score: %s", m)
			}
		}
	}
	return run.Result{NonTrivial: len(want) > 0, Labels: []string{fmt.Sprintf("pieces:%d", min(len(parts), 4))}}
}

func sameRanges(got []rng.Rng, want [][2]int) string {
	var g [][2]int
	for _, r := range got {
		g = append(g, r.AsArray())
	}
	if len(g) != len(want) || len(g) > 0 && !reflect.DeepEqual(g, want) {
		return fmt.Sprintf("gives %v, not %v", g, want)
	}
	return ""
}

func equalInts(a, b []int) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
}

// pieceOf: a piece holds exactly the vertices of its range.
func pieceOf(h *node.Node, coords geom.Coords) string {
	co := h.Coordinates()
	if co.Len() != h.Range.Size()+1 {
		return fmt.Sprintf("piece %v has %d vertices", h.Range, co.Len())
	}
	for k := 0; k < co.Len(); k++ {
		if *co.Pt(k) != *coords.Pt(h.Range.I + k) {
			return fmt.Sprintf("vertex %d of piece %v is %v, not %v", k, h.Range, *co.Pt(k), *coords.Pt(h.Range.I + k))
		}
	}
	return ""
}

// joined: two meeting pieces join to the stretch they cover, in either order,
// and are left as they were.
func joined(a, b *node.Node, coords geom.Coords) string {
	r := rng.Range(a.Range.I, b.Range.J)
	for _, p := range [][2]*node.Node{{a, b}, {b, a}} {
		if m := merge.Range(p[0].Range, p[1].Range); m != r {
			return fmt.Sprintf("ranges %v and %v join to %v", p[0].Range, p[1].Range, m)
		}
		if !p[0].Range.Contiguous(p[1].Range) {
			return fmt.Sprintf("ranges %v and %v should be contiguous", p[0].Range, p[1].Range)
		}
		co := merge.ContiguousCoordinates(p[0], p[1])
		if co.Len() != r.Size()+1 {
			return fmt.Sprintf("pieces %v and %v join to %d vertices", p[0].Range, p[1].Range, co.Len())
		}
		for k := 0; k < co.Len(); k++ {
			if *co.Pt(k) != *coords.Pt(r.I + k) {
				return fmt.Sprintf("pieces %v and %v join to %v at %d", p[0].Range, p[1].Range, *co.Pt(k), k)
			}
		}
	}
	var seen float64
	ok, m := merge.ContiguousFragmentsAtThreshold(iter.NewIgen(), offset.MaxOffset, b, a, func(v float64) bool { seen = v; return true }, common.Geometry)
	if !ok || m.Range != r {
		return fmt.Sprintf("pieces %v and %v merge to %v %v", a.Range, b.Range, ok, m.Range)
	}
	if _, v := offset.MaxOffset(merge.ContiguousCoordinates(a, b)); v != seen {
		return fmt.Sprintf("merge of %v and %v was judged at offset %g, it is %g", a.Range, b.Range, seen, v)
	}
	if s := pieceOf(&m, coords); s != "" {
		return s
	}
	if ok, _ := merge.ContiguousFragmentsAtThreshold(iter.NewIgen(), offset.MaxOffset, a, b, func(float64) bool { return false }, common.Geometry); ok {
		return fmt.Sprintf("pieces %v and %v merge above the threshold", a.Range, b.Range)
	}
	if s := pieceOf(a, coords); s != "" {
		return "joining changed a piece: " + s
	}
	if s := pieceOf(b, coords); s != "" {
		return "joining changed a piece: " + s
	}
	return ""
}

func mustPanic(f func()) (ok bool) {
	defer func() { ok = recover() != nil }()
	f()
	return
}

func checkScores(c *viewCase) run.Result {
	l := &c.Lines[0]
	coords := geom.AsCoordinates(c.Coords(*l))
	view := coords.Slice(c.From, c.To+1)
	part := tgt.Line{Pts: l.Pts[c.From : c.To+1], T: l.T[c.From : c.To+1]}
	own := geom.AsCoordinates(c.Coords(part))
	unit := math.Ldexp(1, c.Scale)
	n := c.To - c.From
	varied := false
	for _, f := range []struct {
		name string
		fn   lnr.ScoreFn
		sed  bool
		sq   bool
	}{{"offset", offset.MaxOffset, false, false}, {"squared offset", offset.SquareMaxOffset, false, true},
		{"synchronised offset", offset.MaxSEDOffset, true, false}, {"squared synchronised offset", offset.SqureMaxSEDOffset, true, true}} {
		k, v := f.fn(view)
		if k2, v2 := f.fn(own); k2 != k || v2 != v {
			return run.Failf("%s of a stretch is %d %g, of the same vertices as a line %d %g", f.name, k, v, k2, v2)
		}
		best, least := 0.0, math.Inf(1)
		for i := 1; i < n; i++ {
			d := offsetAt(&part, 0, n, i, f.sed)
			best, least = math.Max(best, d), math.Min(least, d)
		}
		varied = varied || n > 2 && best > least+1e-6
		val := v
		if f.sq {
			if !(v >= 0) {
				return run.Failf("%s is %g", f.name, v)
			}
			val = math.Sqrt(v)
		}
		val /= unit
		// the squared score loses half the digits near 0
		eps := 1e-7 * (1 + best)
		if f.sq || f.sed {
			eps = 1e-5 * (1 + best)
		}
		if !(math.Abs(val-best) <= eps) {
			return run.Failf("%s is %g, by definition %g", f.name, val, best)
		}
		if n < 2 {
			continue
		}
		if k <= 0 || k >= n {
			return run.Failf("%s is reported at vertex %d of 0..%d", f.name, k, n)
		}
		if d := offsetAt(&part, 0, n, k, f.sed); d < best-2*eps {
			return run.Failf("%s is reported at vertex %d (offset %g), the maximum is %g", f.name, k, d, best)
		}
	}
	return run.Result{NonTrivial: varied, Labels: []string{"family:" + c.Fam}}
}

func checkDetection(c *tgt.Case) run.Result {
	something := false
	for i := range c.Lines {
		pts := c.Lines[i].Pts
		pln := polyline(c, i)
		both := lnr.SelfIntersection(pln, true, true).DataView()
		if len(lnr.SelfIntersection(pln, false, false).DataView()) != 0 {
			return run.Failf("line %d: something is reported with both detections off", i)
		}
		groups := map[geo.P][]int{}
		for k, p := range pts {
			groups[p] = append(groups[p], k)
		}
		want := map[string]int{}
		for p, g := range groups {
			if len(g) > 1 {
				x, y := c.XY(p)
				want[fmt.Sprint(x, y, g)]++
			}
		}
		planar := map[string]int{}
		cross := map[string]bool{}
		for _, g := range both {
			switch {
			case g.IsPlanarVertex() && !g.IsNonPlanarVertex():
				b := g.Bounds()
				planar[fmt.Sprint(b.MinX, b.MinY, g.Meta.Planar)]++
			case g.IsNonPlanarVertex():
				cross[fmt.Sprint(g.Meta.NonPlanar)] = true
			default:
				return run.Failf("line %d: unknown kind of intersection %v", i, g)
			}
		}
		if !reflect.DeepEqual(planar, want) {
			return run.Failf("line %d: planar vertices %v, by definition %v", i, planar, want)
		}
		wantCross := map[string]bool{}
		for a := 0; a+1 < len(pts); a++ {
			for b := a + 1; b+1 < len(pts); b++ {
				if meetOff(pts[a], pts[a+1], pts[b], pts[b+1]) {
					s := map[int]bool{a: true, a + 1: true, b: true, b + 1: true}
					var ks []int
					for k := range s {
						ks = append(ks, k)
					}
					sort.Ints(ks)
					wantCross[fmt.Sprint(ks)] = true
				}
			}
		}
		if !reflect.DeepEqual(cross, wantCross) {
			return run.Failf("line %d: crossings of segments %v, by definition %v", i, cross, wantCross)
		}
		only := map[string]bool{}
		for _, g := range lnr.SelfIntersection(pln, false, true).DataView() {
			only[fmt.Sprint(g.Meta.NonPlanar)] = true
		}
		if !reflect.DeepEqual(only, wantCross) || len(lnr.SelfIntersection(pln, true, false).DataView()) != len(want) {
			return run.Failf("line %d: one detection depends on the other", i)
		}
		something = something || len(want)+len(wantCross) > 0
	}
	var class []*lnr.FC
	for i := range c.Lines {
		class = append(class, lnr.NewFC(geom.AsCoordinates(c.Coords(c.Lines[i])), 10+3*i))
	}
	got := lnr.FCPlanarSelfIntersection(class)
	for i, w := range repeated(c.Lines) {
		g := append([]int{}, got[10+3*i]...)
		sort.Ints(g)
		if !equalInts(g, w) {
			return run.Failf("line %d of the class: shared vertices %v, by definition %v", i, g, w)
		}
		something = something || len(w) > 0
		delete(got, 10+3*i)
	}
	if len(got) > 0 {
		return run.Failf("shared vertices of unknown lines: %v", got)
	}
	return run.Result{NonTrivial: something, Labels: []string{"family:" + c.Fam}}
}

// meetOff: segments ab and cd share a point that is not an end of both.
func meetOff(a, b, c, d geo.P) bool {
	if !geo.SegSeg(a, b, c, d) {
		return false
	}
	if geo.ProperCross(a, b, c, d) {
		return true
	}
	in := func(x, y, p geo.P) bool { return geo.OnSeg(x, y, p) && p != x && p != y }
	return in(c, d, a) || in(c, d, b) || in(a, b, c) || in(a, b, d)
}
