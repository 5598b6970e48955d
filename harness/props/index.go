package props

import (
	"fmt"
	"math"
	"slices"
	"sort"

	"github.com/TopoSimplify/plugin/box"
	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/ctx"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/knn"
	"github.com/TopoSimplify/plugin/merge"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/relate"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
	"github.com/intdxdt/mbr"

	"verifharness/gen"
	"verifharness/geo"
	"verifharness/run"
	"verifharness/tgt"
)

// ---- histories over the spatial index ------------------------------------

// boxT is minx, miny, maxx, maxy.
type boxT [4]int64

func (b boxT) mbr() mbr.MBR {
	return mbr.MBR{MinX: float64(b[0]), MinY: float64(b[1]), MaxX: float64(b[2]), MaxY: float64(b[3])}
}

func (b boxT) meets(o boxT) bool {
	return b[0] <= o[2] && o[0] <= b[2] && b[1] <= o[3] && o[1] <= b[3]
}

func (b boxT) dist(o boxT) float64 {
	dx := math.Max(0, math.Max(float64(o[0]-b[2]), float64(b[0]-o[2])))
	dy := math.Max(0, math.Max(float64(o[1]-b[3]), float64(b[1]-o[3])))
	return math.Hypot(dx, dy)
}

type dbOp struct {
	Kind  string `json:"k"`
	Boxes []boxT `json:"b,omitempty"`
	N     int    `json:"n,omitempty"`
	Seed  int    `json:"s,omitempty"`
}

type dbCase struct {
	Cap int    `json:"cap"`
	Ops []dbOp `json:"ops"`
}

func drawBox(t *T, span int) boxT {
	x, y := int64(gen.I(t, -span, span, "x")), int64(gen.I(t, -span, span, "y"))
	w, h := int64(gen.I(t, 0, 12, "w")), int64(gen.I(t, 0, 12, "h"))
	if gen.Chance(t, 15, "big") {
		w, h = w*int64(1+span/8), h*int64(1+span/8)
	}
	return boxT{x, y, x + w, y + h}
}

// bulk expands a big batch from a seed (so that a case stays small on disk).
func bulk(n, seed int) []boxT {
	v := uint64(seed)*2862933555777941757 + 3037000493
	next := func(m int) int64 {
		v ^= v << 13
		v ^= v >> 7
		v ^= v << 17
		return int64(v % uint64(m))
	}
	mode := next(5)
	out := make([]boxT, n)
	for i := range out {
		x, y := next(2000)-1000, next(2000)-1000
		switch mode {
		case 0: // sorted
			x, y = int64(i), int64(i%7)
		case 1: // few distinct values
			x, y = next(6)*10, next(6)*10
		case 2: // all the same x
			x = 5
		}
		out[i] = boxT{x, y, x + next(9), y + next(9)}
	}
	return out
}

func drawDB(t *T) dbCase {
	c := dbCase{Cap: []int{0, 0, 4, 4, 5, 9, 16, 1}[gen.I(t, 0, 7, "cap")]}
	span := []int{5, 40, 300}[gen.I(t, 0, 2, "span")]
	for k := gen.I(t, 1, 40, "nops"); k > 0; k-- {
		switch gen.I(t, 0, 11, "op") {
		case 0, 1, 2:
			o := dbOp{Kind: "load"}
			for j := gen.I(t, 0, 14, "nb"); j > 0; j-- {
				o.Boxes = append(o.Boxes, drawBox(t, span))
			}
			c.Ops = append(c.Ops, o)
		case 3:
			c.Ops = append(c.Ops, dbOp{Kind: "load", Boxes: []boxT{drawBox(t, span)}})
		case 4:
			n := gen.I(t, 1, 120, "bulk")
			if gen.Chance(t, 12, "huge") {
				n = gen.I(t, 500, 1600, "bulk")
			}
			c.Ops = append(c.Ops, dbOp{Kind: "bulk", N: n, Seed: gen.I(t, 1, 1<<20, "seed")})
		case 5, 6, 7:
			c.Ops = append(c.Ops, dbOp{Kind: "remove", N: gen.I(t, 0, 5000, "which"), Seed: gen.I(t, 1, 6, "many")})
		case 8:
			c.Ops = append(c.Ops, dbOp{Kind: "removefrac", N: gen.I(t, 1, 10, "of 10"), Seed: gen.I(t, 1, 100, "seed")})
		case 9:
			switch gen.I(t, 0, 3, "rare") {
			case 0:
				c.Ops = append(c.Ops, dbOp{Kind: "clear"})
			case 1:
				c.Ops = append(c.Ops, dbOp{Kind: "removeabsent", Boxes: []boxT{drawBox(t, span)}})
			default:
				c.Ops = append(c.Ops, dbOp{Kind: "reload", N: gen.I(t, 0, 5000, "which")})
			}
		default:
			c.Ops = append(c.Ops, dbOp{Kind: "search", Boxes: []boxT{drawBox(t, span), drawBox(t, 1+span/3)}})
		}
	}
	return c
}

type dbModel struct {
	db    *hdb.Hdb
	boxes map[int]boxT
	nodes map[int]*node.Node
	id    *iter.Igen
	gone  []*node.Node
	deep  bool
	max   int
}

func (m *dbModel) ids() []int {
	out := make([]int, 0, len(m.boxes))
	for k := range m.boxes {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func (m *dbModel) load(bs []boxT) {
	items := make([]node.Node, len(bs))
	for i, b := range bs {
		items[i] = node.Node{Id: m.id.Next(), MBR: b.mbr()}
		m.boxes[items[i].Id] = b
	}
	m.db.Load(items)
	for i := range items {
		m.nodes[items[i].Id] = &items[i]
	}
	m.max = max(m.max, len(m.boxes))
}

func (m *dbModel) remove(k int) {
	n := m.nodes[k]
	if k%3 == 0 { // an equal node, not the stored one
		q := *n
		n = &q
	}
	m.db.Remove(n)
	m.gone = append(m.gone, n)
	delete(m.boxes, k)
	delete(m.nodes, k)
}

func idSet(ns []*node.Node) ([]int, string) {
	var out []int
	for _, n := range ns {
		if n == nil {
			return nil, "a nil node is returned"
		}
		out = append(out, n.Id)
	}
	sort.Ints(out)
	return out, ""
}

func sameIDs(what string, got []*node.Node, want []int) string {
	g, m := idSet(got)
	if m != "" {
		return what + ": " + m
	}
	if !equalInts(g, want) {
		return fmt.Sprintf("%s gives %d items %v, the model %d %v", what, len(g), clipInts(g), len(want), clipInts(want))
	}
	return ""
}

func clipInts(a []int) []int { return a[:min(len(a), 30)] }

func (m *dbModel) check(queries []boxT) string {
	if s := sameIDs("all", m.db.All(), m.ids()); s != "" {
		return s
	}
	if m.db.IsEmpty() != (len(m.boxes) == 0) {
		return fmt.Sprintf("empty is %v with %d items", m.db.IsEmpty(), len(m.boxes))
	}
	for _, q := range queries {
		var want []int
		for _, k := range m.ids() {
			if m.boxes[k].meets(q) {
				want = append(want, k)
			}
		}
		if s := sameIDs(fmt.Sprintf("search %v", q), m.db.Search(q.mbr()), want); s != "" {
			return s
		}
		if m.db.Collides(q.mbr()) != (len(want) > 0) {
			return fmt.Sprintf("collides %v is %v with %d items there", q, len(want) == 0, len(want))
		}
	}
	return ""
}

// play runs the history; after every operation the index is compared.
func (c *dbCase) play(each func(m *dbModel) string) (*dbModel, string) {
	m := &dbModel{boxes: map[int]boxT{}, nodes: map[int]*node.Node{}, id: iter.NewIgen(3)}
	if c.Cap > 0 {
		m.db = hdb.NewHdb(c.Cap)
	} else {
		m.db = hdb.NewHdb()
	}
	for i, o := range c.Ops {
		ids := m.ids()
		queries := o.Boxes
		switch o.Kind {
		case "load":
			m.load(o.Boxes)
			if len(queries) > 2 {
				queries = queries[:2]
			}
		case "bulk":
			m.load(bulk(o.N, o.Seed))
		case "remove":
			for j := 0; j < o.Seed && j < len(ids); j++ {
				m.remove(ids[(o.N+j)%len(ids)])
			}
		case "removefrac":
			v := uint64(o.Seed)
			for _, k := range ids {
				v = v*6364136223846793005 + 1442695040888963407
				if int(v>>33)%10 < o.N {
					m.remove(k)
				}
			}
		case "removeabsent":
			n := node.Node{Id: m.id.Next(), MBR: o.Boxes[0].mbr()}
			m.db.Remove(&n)
			m.db.Remove(nil)
			if len(m.gone) > 0 {
				m.db.Remove(m.gone[len(m.gone)/2])
			}
		case "reload": // the same node out and in again, as the simplifier does
			if len(ids) > 0 {
				k := ids[o.N%len(ids)]
				n := m.nodes[k]
				m.db.Remove(n)
				one := []node.Node{*n}
				m.db.Load(one)
				m.nodes[k] = &one[0]
			}
		case "clear":
			m.db.Clear()
			m.boxes, m.nodes = map[int]boxT{}, map[int]*node.Node{}
		}
		if s := m.check(queries); s != "" {
			return m, fmt.Sprintf("after operation %d (%s): %s", i, o.Kind, s)
		}
		if each != nil {
			if s := each(m); s != "" {
				return m, fmt.Sprintf("after operation %d (%s): %s", i, o.Kind, s)
			}
		}
	}
	return m, ""
}

type knnCase struct {
	dbCase
	Q     []boxT  `json:"q"`
	Limit int     `json:"limit"`
	Reach float64 `json:"reach"`
}

// mbrDist scores index entries by box distance.
func mbrDist(q *mbr.MBR, o *hdb.KObj) float64 {
	dx := math.Max(0, math.Max(o.MBR.MinX-q.MaxX, q.MinX-o.MBR.MaxX))
	dy := math.Max(0, math.Max(o.MBR.MinY-q.MaxY, q.MinY-o.MBR.MaxY))
	return math.Hypot(dx, dy)
}

func (c *knnCase) check(m *dbModel) string {
	for _, q := range c.Q {
		type nd struct {
			id int
			d  float64
		}
		var want []nd
		for _, k := range m.ids() {
			want = append(want, nd{k, m.boxes[k].dist(q)})
		}
		sort.SliceStable(want, func(i, j int) bool { return want[i].d < want[j].d })
		for _, lim := range []int{-1, c.Limit} {
			for _, reach := range []float64{-1, c.Reach + 0.123456} {
				var got []*node.Node
				if reach < 0 {
					got = m.db.Knn(q.mbr(), lim, mbrDist)
				} else {
					got = m.db.Knn(q.mbr(), lim, mbrDist, func(o *hdb.KObj) (bool, bool) {
						return o.Distance <= reach, o.Distance > reach
					})
				}
				n := 0
				for n < len(want) && (lim <= 0 || n < lim) && (reach < 0 || want[n].d <= reach) {
					n++
				}
				if len(got) != n {
					return fmt.Sprintf("nearest to %v (limit %d, reach %g) gives %d items of %d", q, lim, reach, len(got), n)
				}
				seen := map[int]bool{}
				for i, g := range got {
					if g == nil || seen[g.Id] {
						return fmt.Sprintf("nearest to %v returns an item twice or none", q)
					}
					seen[g.Id] = true
					b, ok := m.boxes[g.Id]
					if !ok {
						return fmt.Sprintf("nearest to %v returns an absent item %d", q, g.Id)
					}
					if d := b.dist(q); math.Abs(d-want[i].d) > 1e-9 {
						return fmt.Sprintf("nearest to %v: item %d of the result is %g away, should be %g", q, i, d, want[i].d)
					}
				}
			}
		}
		// predicates that only select
		got := m.db.Knn(q.mbr(), c.Limit, mbrDist, func(o *hdb.KObj) (bool, bool) { return o.GetNode().Id%3 == 0, false })
		var ds []float64
		for _, w := range want {
			if w.id%3 == 0 && (c.Limit <= 0 || len(ds) < c.Limit) {
				ds = append(ds, w.d)
			}
		}
		if len(got) != len(ds) {
			return fmt.Sprintf("nearest selected items to %v (limit %d) gives %d items of %d", q, c.Limit, len(got), len(ds))
		}
		for i, g := range got {
			if g.Id%3 != 0 || math.Abs(m.boxes[g.Id].dist(q)-ds[i]) > 1e-9 {
				return fmt.Sprintf("nearest selected items to %v: wrong item %d", q, g.Id)
			}
		}
	}
	return ""
}

// ---- neighbours by geometry ------------------------------------------------

type nearCase struct {
	tgt.Case
	Cut   []int   `json:"cut"`
	Reach float64 `json:"reach"`
	Cuts  [][]int `json:"cuts,omitempty"` // of the other lines
}

func iGeoms(c *tgt.Case) []geom.Geometry {
	var out []geom.Geometry
	for _, g := range c.Constraints() {
		out = append(out, g.Geometry())
	}
	return out
}

func objDist(a, b *geo.Obj) float64 {
	d := math.Inf(1)
	for _, r := range a.Rings {
		d = math.Min(d, b.Dist(r))
	}
	if a.Kind == geo.KPolygon {
		for _, r := range b.Rings {
			d = math.Min(d, a.Dist(r))
		}
	}
	return d
}

// hullPieces cuts a line at the given positions.
func hullPieces(id *iter.Igen, coords geom.Coords, n int, cut []int) []node.Node {
	set := map[int]bool{0: true, n - 1: true}
	for _, k := range cut {
		if k > 0 && k < n-1 {
			set[k] = true
		}
	}
	var ks []int
	for k := range set {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var ranges [][]int
	for i := 0; i+1 < len(ks); i++ {
		ranges = append(ranges, []int{ks[i], ks[i+1]})
	}
	return common.CreateHulls(id, ranges, coords, nil)
}

// corner tells whether p is a vertex of a hull.
func corner(o geo.Obj, p geo.P) bool { return slices.Contains(o.Rings[0], p) }

// hullOf is the convex hull (monotone chain) as an object.
func hullOf(ps []geo.P) geo.Obj {
	q := append([]geo.P{}, ps...)
	sort.Slice(q, func(i, j int) bool { return q[i][0] < q[j][0] || q[i][0] == q[j][0] && q[i][1] < q[j][1] })
	var u []geo.P
	for _, p := range q {
		if len(u) == 0 || u[len(u)-1] != p {
			u = append(u, p)
		}
	}
	if len(u) == 1 {
		return geo.Obj{Kind: geo.KPoint, Rings: [][]geo.P{u}}
	}
	half := func(in []geo.P) []geo.P {
		var h []geo.P
		for _, p := range in {
			for len(h) > 1 && geo.Orient(h[len(h)-2], h[len(h)-1], p) <= 0 {
				h = h[:len(h)-1]
			}
			h = append(h, p)
		}
		return h
	}
	lo := half(u)
	rev := make([]geo.P, len(u))
	for i, p := range u {
		rev[len(u)-1-i] = p
	}
	up := half(rev)
	ring := append(lo[:len(lo)-1:len(lo)-1], up...)
	if len(ring) < 4 {
		return geo.Obj{Kind: geo.KLine, Rings: [][]geo.P{{u[0], u[len(u)-1]}}}
	}
	return geo.Obj{Kind: geo.KPolygon, Rings: [][]geo.P{ring}}
}

func cuts(t *T, n int) []int {
	var out []int
	at, wide := 0, 12
	if gen.Chance(t, 20, "wide") { // long pieces
		wide = max(n, 12)
	}
	for {
		at += gen.I(t, 1, wide, "gap")
		if at >= n-1 {
			return out
		}
		out = append(out, at)
	}
}

func init() {
	run.Register(run.Prop{ID: "C24", Quick: 150000, Thorough: 500000,
		Rule: "histories of up to 40 operations on the spatial index (batches of 0-14 items, bulk batches of up to 1600 sorted, clustered or repeated boxes, removal of some, many, all or absent items, remove-and-reload, clear) at node capacities 4-16, compared with a plain map after every operation; non-trivial when items were removed from an index of more than 16"},
		drawDB,
		func(c *dbCase) run.Result {
			m, s := c.play(nil)
			if s != "" {
				return run.Result{Fail: s}
			}
			l := "max items:<=16"
			if m.max > 600 {
				l = "max items:>600"
			} else if m.max > 16 {
				l = "max items:17-600"
			}
			return run.Result{NonTrivial: m.max > 16 && len(m.gone) > 0, Labels: []string{l, fmt.Sprintf("capacity:%d", c.Cap)}}
		})

	run.Register(run.Prop{ID: "C25", Quick: 120000, Thorough: 250000,
		Rule: "nearest-neighbour queries (with and without limit, reach and selection) after every operation of an index history, against sorting all items by box distance; non-trivial when the index held more than 8 items"},
		func(t *T) knnCase {
			c := knnCase{dbCase: drawDB(t)}
			if len(c.Ops) > 12 {
				c.Ops = c.Ops[:12]
			}
			for i := range c.Ops {
				if c.Ops[i].N > 200 && c.Ops[i].Kind == "bulk" {
					c.Ops[i].N = 200
				}
			}
			c.Q = []boxT{drawBox(t, 50), drawBox(t, 1000)}
			c.Limit = gen.I(t, 0, 12, "limit")
			c.Reach = float64(gen.I(t, 0, 60, "reach"))
			return c
		},
		func(c *knnCase) run.Result {
			m, s := c.play(c.check)
			if s != "" {
				return run.Result{Fail: s}
			}
			return run.Result{NonTrivial: m.max > 8, Labels: []string{fmt.Sprintf("limit:%v", c.Limit > 0)}}
		})

	run.Register(run.Prop{ID: "C26", Quick: 560000, Thorough: 900000,
		Rule: "up to 45 constraint objects and the convex hulls of the pieces of a line in an index; objects within a distance of a hull and hulls touching a hull, against the distance and intersection of all pairs; non-trivial when some but not all are neighbours"},
		func(t *T) nearCase {
			var c nearCase
			c.Case = base(t, 0)
			context(t, &c.Case)
			c.Cut = cuts(t, len(c.Lines[0].Pts))
			if gen.Chance(t, 40, "other lines") {
				for k := gen.I(t, 1, 3, "ol"); k > 0; k-- {
					l := tgt.Line{}
					if gen.Chance(t, 60, "shifted") { // the same line, moved a little
						d := geo.P{int64(gen.I(t, -4, 4, "dx")), int64(gen.I(t, -4, 4, "dy"))}
						for _, p := range c.Lines[0].Pts {
							l.Pts = append(l.Pts, geo.P{p[0] + d[0], p[1] + d[1]})
						}
						c.Cuts = append(c.Cuts, c.Cut)
					} else {
						l, _ = oneLine(t)
						c.Cuts = append(c.Cuts, cuts(t, len(l.Pts)))
					}
					c.Lines = append(c.Lines, l)
				}
			}
			c.Reach = gen.Threshold(t) + 0.0123456
			c.Sym = gen.I(t, 0, 7, "sym")
			if gen.Chance(t, 30, "off") {
				c.Off = geo.P{int64(gen.I(t, -20000, 20000, "ox")), int64(gen.I(t, -20000, 20000, "oy"))}
			} else if gen.Chance(t, 25, "scaled") {
				c.Scale = gen.I(t, -3, 6, "scale")
			}
			return c
		},
		checkNeighbours)

	run.Register(run.Prop{ID: "C27", Quick: 1160000, Thorough: 1500000,
		Rule: "pieces of lines of any family against up to 10 point, line and polygon constraints; the geometric, minimum-distance and homotopy verdict for one piece against exact predicates and the crossing word of the loop; non-trivial when one of the verdicts is negative or the homotopy verdict positive with a constraint in the hull"},
		func(t *T) nearCase {
			var c nearCase
			c.Case = base(t, 0)
			context(t, &c.Case)
			if len(c.Cons) < 50 && gen.Chance(t, 70, "few") {
				c.Cons = c.Cons[:min(len(c.Cons), 10)]
			}
			if gen.Chance(t, 50, "single") {
				c.Cons = c.Cons[:1]
			}
			n := len(c.Lines[0].Pts)
			i := gen.I(t, 0, n-2, "i")
			j := gen.I(t, i+1, n-1, "j")
			c.Cut = []int{i, j}
			c.Reach = gen.Threshold(t) + 0.0123456
			if gen.Chance(t, 50, "exact reach") { // often just the distance of a constraint
				c.Reach = math.Floor(c.Reach)
				if o := &c.Cons[gen.I(t, 0, len(c.Cons)-1, "at")]; gen.Chance(t, 70, "tie") {
					c.Reach = math.Floor(o.Dist(c.Lines[0].Pts[i : j+1]))
				}
			}
			frame(t, &c.Case)
			return c
		},
		checkRelate)

	run.Register(run.Prop{ID: "C28", Quick: 1380000, Thorough: 1500000,
		Rule: "the pieces of lines of any family cut at random: hull, box, end points, previous and next piece, collapsibility of meeting pieces, and merging of small pieces, against exact definitions; non-trivial when some piece has a hull with area and some merge happened or was refused"},
		func(t *T) nearCase {
			var c nearCase
			c.Case = base(t, 0)
			if gen.Chance(t, 50, "short") {
				for k := 1; k < len(c.Lines[0].Pts)-1; k++ {
					if gen.Chance(t, 60, "cut") {
						c.Cut = append(c.Cut, k)
					}
				}
			} else {
				c.Cut = cuts(t, len(c.Lines[0].Pts))
			}
			c.Sym = gen.I(t, 0, 7, "sym")
			if gen.Chance(t, 30, "off") {
				c.Off = geo.P{int64(gen.I(t, -20000, 20000, "ox")), int64(gen.I(t, -20000, 20000, "oy"))}
			} else if gen.Chance(t, 30, "scaled") {
				c.Scale = gen.I(t, -8, 8, "scale")
			}
			return c
		},
		checkNodes)
}

func checkNeighbours(c *nearCase) run.Result {
	id := iter.NewIgen()
	pts := c.Lines[0].Pts
	coords := geom.AsCoordinates(c.Coords(c.Lines[0]))
	hulls := hullPieces(id, coords, len(pts), c.Cut)
	var cons []node.Node
	for _, g := range c.Constraints() {
		cg := ctx.New(g, 0, -1).AsContextNeighbour()
		cons = append(cons, node.Node{Id: id.Next(), MBR: cg.Bounds(), Geom: cg})
	}
	base := 0
	if len(cons) > 0 {
		base = cons[0].Id
	}
	cdb := hdb.NewHdb().Load(cons)
	some, notAll := false, false
	own := len(hulls)
	objs := make([]geo.Obj, len(hulls))
	for i := range hulls {
		r := hulls[i].Range
		objs[i] = hullOf(pts[r.I : r.J+1])
	}
	for k, l := range c.Lines[1:] {
		more := hullPieces(id, geom.AsCoordinates(c.Coords(l)), len(l.Pts), c.Cuts[k])
		for i := range more {
			r := more[i].Range
			objs = append(objs, hullOf(l.Pts[r.I:r.J+1]))
		}
		hulls = append(hulls, more...)
	}
	ndb := hdb.NewHdb().Load(append([]node.Node{}, hulls...))
	for i := range hulls[:own] {
		h := &hulls[i]
		var want, skip []int
		for k := range c.Cons {
			d := objDist(&objs[i], &c.Cons[k])
			if math.Abs(d-c.Reach) < 1e-6*(1+c.Reach) {
				skip = append(skip, base+k)
			} else if d <= c.Reach {
				want = append(want, base+k)
			}
		}
		if len(skip) == 0 {
			if m := sameIDs(fmt.Sprintf("constraints within %g of piece %v", c.Reach, h.Range), knn.ContextNeighbours(cdb, h.Geom, c.Reach*math.Ldexp(1, c.Scale)), want); m != "" {
				return run.Result{Fail: m}
			}
			some = some || len(want) > 0
			notAll = notAll || len(want) < len(c.Cons)
		}
		if i > 8 && i%7 != 0 {
			continue
		}
		want = nil
		for k := range hulls {
			if k != i && objDist(&objs[i], &objs[k]) == 0 {
				want = append(want, hulls[k].Id)
			}
		}
		sort.Ints(want)
		if m := sameIDs(fmt.Sprintf("hulls touching piece %v", h.Range), knn.NodeNeighbours(ndb, h, knn.EpsilonDist), want); m != "" {
			return run.Result{Fail: m}
		}
		x0, y0, x1, y1 := math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
		for _, p := range pts[h.Range.I : h.Range.J+1] {
			x, y := c.XY(p)
			x0, y0, x1, y1 = math.Min(x0, x), math.Min(y0, y), math.Max(x1, x), math.Max(y1, y)
		}
		ring := box.MBRToPolygon(h.Bounds())
		if bb := ring.Bounds(); bb.MinX != x0 || bb.MinY != y0 || bb.MaxX != x1 || bb.MaxY != y1 {
			return run.Failf("the box of piece %v as a polygon spans %v", h.Range, bb)
		}
		if a := ring.Area(); math.Abs(a-(x1-x0)*(y1-y0)) > 1e-6*(1+a) {
			return run.Failf("the box of piece %v as a polygon has area %g, not %g", h.Range, a, (x1-x0)*(y1-y0))
		}
	}
	return run.Result{NonTrivial: some && notAll, Labels: []string{"family:" + c.Fam}}
}

func checkRelate(c *nearCase) run.Result {
	id := iter.NewIgen()
	i, j := c.Cut[0], c.Cut[1]
	pts := c.Lines[0].Pts
	coords := geom.AsCoordinates(c.Coords(c.Lines[0]))
	hull := common.CreateHulls(id, [][]int{{i, j}}, coords, nil)[0]
	cs := ctx.NewContexts()
	for _, g := range c.Constraints() {
		cs.Push(ctx.New(g, 0, -1).AsContextNeighbour())
	}
	path, seg := pts[i:j+1], []geo.P{pts[i], pts[j]}
	geomOK, distOK, outside, clear := true, true, true, true
	ho := hullOf(path)
	for k := range c.Cons {
		o := &c.Cons[k]
		if o.Meets(path) != o.Meets(seg) {
			geomOK = false
		}
		a, b := o.Reach(path, c.Reach), o.Reach(seg, c.Reach)
		if a < 0 || b > 0 {
			// either is enough
		} else if a == 0 || b == 0 {
			clear = false
		} else {
			distOK = false
		}
		if objDist(&ho, o) == 0 {
			outside = false
		}
	}
	if got := relate.IsGeomRelateValid(&hull, cs); got != geomOK {
		return run.Failf("geometric relation of piece (%d,%d) is judged %v, by definition %v", i, j, got, geomOK)
	}
	o := &opts.Opts{MinDist: c.Reach * math.Ldexp(1, c.Scale)}
	if got := relate.IsDistRelateValid(o, &hull, cs); clear && got != distOK {
		return run.Failf("minimum distance of piece (%d,%d) is judged %v, by definition %v", i, j, got, distOK)
	}
	homo := relate.IsDirRelateValid(&hull, cs)
	if homo {
		if m := homotopy(&c.Lines[0], []int{i, j}, c.Cons); m != "" {
			return run.Failf("homotopy of piece (%d,%d) is judged valid: %s", i, j, m)
		}
		if !geomOK {
			return run.Failf("homotopy of piece (%d,%d) is judged valid although an intersection changes", i, j)
		}
	} else if outside || j-i == 1 {
		return run.Failf("homotopy of piece (%d,%d) is judged broken with every constraint outside its hull", i, j)
	} else if geomOK {
		var free []geo.Obj
		for k := range c.Cons {
			if !c.Cons[k].Meets(path) {
				free = append(free, c.Cons[k])
			}
		}
		if pulledStraight(path, free) {
			return run.Failf("homotopy of piece (%d,%d) is judged broken although it can be pulled straight through empty triangles", i, j)
		}
	}
	return run.Result{NonTrivial: !geomOK || !distOK || !homo || !outside, Labels: []string{"family:" + c.Fam,
		fmt.Sprintf("geom %v", geomOK), fmt.Sprintf("dist %v", distOK), fmt.Sprintf("homotopy %v", homo)}}
}

func checkNodes(c *nearCase) run.Result {
	id := iter.NewIgen()
	pts := c.Lines[0].Pts
	coords := geom.AsCoordinates(c.Coords(c.Lines[0]))
	hulls := hullPieces(id, coords, len(pts), c.Cut)
	area := false
	ids := map[int]bool{}
	var ptrs []*node.Node
	for k := range hulls {
		ptrs = append(ptrs, &hulls[len(hulls)-1-k])
	}
	for k := range hulls {
		h := &hulls[k]
		if ids[h.Id] {
			return run.Failf("two pieces have id %d", h.Id)
		}
		ids[h.Id] = true
		path := pts[h.Range.I : h.Range.J+1]
		if m := pieceOf(h, coords); m != "" {
			return run.Result{Fail: m}
		}
		want := hullOf(path)
		area = area || want.Kind == geo.KPolygon
		if m := sameHull(&c.Case, h, &want); m != "" {
			return run.Failf("hull of piece %v: %s", h.Range, m)
		}
		a, b := h.SegmentPoints()
		ax, ay := c.XY(path[0])
		bx, by := c.XY(path[len(path)-1])
		if a[0] != ax || a[1] != ay || b[0] != bx || b[1] != by || *h.First() != *a || *h.Last() != *b {
			return run.Failf("end points of piece %v are %v %v", h.Range, a, b)
		}
		sp := h.SegmentAsPolyline().Coordinates.Points()
		if len(sp) != 2 || sp[0] != *a || sp[1] != *b {
			return run.Failf("segment of piece %v is %v", h.Range, sp)
		}
		prev, next := node.Neighbours(h, ptrs)
		if (prev == nil) != (k == 0) || (next == nil) != (k == len(hulls)-1) ||
			prev != nil && prev != &hulls[k-1] || next != nil && next != &hulls[k+1] {
			return run.Failf("previous and next of piece %v are wrong: %v %v", h.Range, prev, next)
		}
		for _, q := range []int{k - 1, k + 1} {
			if q < 0 || q >= len(hulls) {
				continue
			}
			o := &hulls[q]
			if m := collapsible(pts, h, o, &want); m != "" {
				return run.Result{Fail: m}
			}
		}
	}
	// touching of any two pieces
	for k := 0; k+1 < len(hulls) && k < 6; k++ {
		q := (k*5 + 1 + len(c.Cut)) % len(hulls)
		if q == k {
			continue
		}
		a, b := &hulls[k], &hulls[q]
		oa, ob := hullOf(pts[a.Range.I:a.Range.J+1]), hullOf(pts[b.Range.I:b.Range.J+1])
		touch := objDist(&oa, &ob) == 0
		in, contig, n := node.IsContiguous(a, b)
		if in != touch {
			return run.Failf("pieces %v and %v are judged to touch: %v, by definition %v", a.Range, b.Range, in, touch)
		}
		if touch != (n > 0) {
			return run.Failf("pieces %v and %v touch (%v) with %d points in common", a.Range, b.Range, touch, n)
		}
		ends := pts[a.Range.I] == pts[b.Range.I] || pts[a.Range.I] == pts[b.Range.J] || pts[a.Range.J] == pts[b.Range.I] || pts[a.Range.J] == pts[b.Range.J]
		if m := collapsible(pts, a, b, &oa); m != "" {
			return run.Result{Fail: m}
		}
		if m := collapsible(pts, b, a, &ob); m != "" {
			return run.Result{Fail: m}
		}
		if contig && !ends {
			return run.Failf("pieces %v and %v are judged contiguous without a common end", a.Range, b.Range)
		}
		for _, e := range []int{a.Range.I, a.Range.J} {
			if p := pts[e]; !contig && (p == pts[b.Range.I] || p == pts[b.Range.J]) && (corner(oa, p) || corner(ob, p)) {
				return run.Failf("pieces %v and %v share the end %v and are judged not contiguous", a.Range, b.Range, p)
			}
		}
	}
	merged, m := checkMergeBySize(c, hulls, coords)
	if m != "" {
		return run.Result{Fail: m}
	}
	return run.Result{NonTrivial: area && len(hulls) > 1, Labels: []string{"family:" + c.Fam, fmt.Sprintf("merged:%v", merged)}}
}

// sameHull compares the geometry of a piece with the exact hull.
func sameHull(c *tgt.Case, h *node.Node, want *geo.Obj) string {
	key := func(x, y float64) string { return fmt.Sprint(x, " ", y) }
	w := map[string]bool{}
	x0, y0, x1, y1 := math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	for _, p := range want.Rings[0] {
		x, y := c.XY(p)
		w[key(x, y)] = true
		x0, y0, x1, y1 = math.Min(x0, x), math.Min(y0, y), math.Max(x1, x), math.Max(y1, y)
	}
	for _, b := range []mbr.MBR{h.MBR, *h.BBox(), h.Bounds()} {
		if b.MinX != x0 || b.MinY != y0 || b.MaxX != x1 || b.MaxY != y1 {
			return fmt.Sprintf("box is %v", b)
		}
	}
	g := map[string]bool{}
	switch s := h.Geom.(type) {
	case *geom.Polygon:
		if want.Kind != geo.KPolygon {
			return "a polygon for points in a line: " + s.WKT()
		}
		for _, p := range s.Shell.Coordinates.Points() {
			g[key(p[0], p[1])] = true
		}
	case *geom.LineString:
		if want.Kind == geo.KPolygon {
			return "a line for points not in a line: " + s.WKT()
		}
		for _, p := range s.Coordinates.Points() {
			g[key(p[0], p[1])] = true
		}
	case geom.Point:
		g[key(s[0], s[1])] = true
	case *geom.Point:
		g[key(s[0], s[1])] = true
	default:
		return fmt.Sprintf("unknown geometry %T", s)
	}
	for k := range w {
		if !g[k] {
			return fmt.Sprintf("corner %s missing in %s", k, h.String())
		}
	}
	for k := range g {
		if !w[k] {
			return fmt.Sprintf("%s is no corner, in %s", k, h.String())
		}
	}
	return ""
}

func collapsible(pts []geo.P, h, o *node.Node, hull *geo.Obj) string {
	got := h.Collapsible(o)
	if h.Range.Size() == 1 {
		if !got {
			return fmt.Sprintf("segment %v is judged not collapsible", h.Range)
		}
		return ""
	}
	hi, hj, oi, oj := pts[h.Range.I], pts[h.Range.J], pts[o.Range.I], pts[o.Range.J]
	// the unambiguous cases: exactly one common end
	if (hi == oi || hj == oi) == (hi == oj || hj == oj) || hi == hj || oi == oj || hull.Kind != geo.KPolygon {
		return ""
	}
	far := oi
	if hi == oi || hj == oi {
		far = oj
	}
	inside := geo.InRing(hull.Rings[0], far)
	if inside == 1 && got {
		return fmt.Sprintf("piece %v is judged collapsible although the far end of piece %v is inside its hull", h.Range, o.Range)
	}
	if inside == -1 && !got {
		return fmt.Sprintf("piece %v is judged not collapsible although piece %v ends outside its hull", h.Range, o.Range)
	}
	if geo.OnSeg(hi, hj, far) && got {
		return fmt.Sprintf("piece %v is judged collapsible although piece %v folds onto its segment", h.Range, o.Range)
	}
	return ""
}

// checkMergeBySize: merging small pieces keeps the line covered exactly once,
// never across a fixed vertex, and never above the threshold.
func checkMergeBySize(c *nearCase, hulls []node.Node, coords geom.Coords) (bool, string) {
	fixed := map[int]bool{}
	for i, k := range c.Cut {
		if i%3 == 1 {
			fixed[k] = true
		}
	}
	thr := c.Opt.Threshold * math.Ldexp(1, c.Scale)
	id := iter.NewIgen(1000)
	mine := append([]node.Node{}, hulls...)
	db := hdb.NewHdb().Load(mine)
	ok := func(v float64) bool { return v <= thr }
	size := []int{1, 1, 2, 3}[(len(c.Cut)+len(hulls))%4]
	left := map[[2]int]*node.Node{}
	keep, rm := merge.ContiguousFragmentsBySize(id, mine, db, fixed, left, size, ok, offset.MaxOffset, common.Geometry)
	removed := map[rng.Rng]bool{}
	for _, r := range rm {
		if removed[r.Range] {
			return false, fmt.Sprintf("piece %v is merged twice", r.Range)
		}
		removed[r.Range] = true
	}
	sort.Slice(keep, func(i, j int) bool { return keep[i].Range.I < keep[j].Range.I })
	old := map[int]bool{}
	for i := range hulls {
		old[hulls[i].Range.I] = true
	}
	at := 0
	was := map[rng.Rng]bool{}
	for i := range hulls {
		was[hulls[i].Range] = true
	}
	for n, k := range keep {
		if k.Range.I != at {
			return false, fmt.Sprintf("after merging small pieces vertex %d is not covered once (piece %v)", at, k.Range)
		}
		if m := pieceOf(k, coords); m != "" {
			return false, m
		}
		at = k.Range.J
		if was[k.Range] {
			if removed[k.Range] {
				return false, fmt.Sprintf("piece %v is both kept and removed", k.Range)
			}
			if n > 0 && was[keep[n-1].Range] {
				p := keep[n-1]
				if p.Range.Size() != size && k.Range.Size() != size {
					continue
				}
				if _, v := offset.MaxOffset(coords.Slice(p.Range.I, k.Range.J+1)); v <= thr && !fixed[k.Range.I] {
					return false, fmt.Sprintf("pieces %v and %v of size %d were not merged at offset %g <= %g", p.Range, k.Range, size, v, thr)
				}
				for _, o := range []*node.Node{p, k} {
					if o.Range.Size() == size && left[o.Range.AsArray()] == nil {
						return false, fmt.Sprintf("piece %v of size %d is not reported as left over", o.Range, size)
					}
				}
			}
			continue
		}
		small := false
		for _, o := range hulls {
			if k.Range.I <= o.Range.I && o.Range.J <= k.Range.J && o.Range.Size() == size {
				small = true
			}
		}
		if !small {
			return false, fmt.Sprintf("piece %v was merged without a piece of size %d", k.Range, size)
		}
		for v := k.Range.I + 1; v < k.Range.J; v++ {
			if old[v] && fixed[v] {
				return false, fmt.Sprintf("pieces were merged across the fixed vertex %d", v)
			}
		}
		if _, v := offset.MaxOffset(k.Coordinates()); v > thr {
			return false, fmt.Sprintf("piece %v was merged at offset %g > %g", k.Range, v, thr)
		}
	}
	for _, o := range left {
		if o.Range.Size() != size || !was[o.Range] || removed[o.Range] {
			return false, fmt.Sprintf("piece %v is reported as left over of size %d", o.Range, size)
		}
	}
	if at != len(c.Lines[0].Pts)-1 {
		return false, fmt.Sprintf("after merging small pieces the line ends at vertex %d", at)
	}
	return len(rm) > 0, ""
}
