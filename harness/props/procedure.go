package props

import (
	"fmt"
	"math"
	"reflect"
	"slices"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/ctx"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/relate"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"

	"verifharness/gen"
	"verifharness/geo"
	"verifharness/run"
	"verifharness/tgt"
)

// reference is the documented procedure, one step after the other: Douglas-
// Peucker, cut at the protected vertices, then in rounds split what violates
// a relation or would meet another stretch anew at its farthest vertex until
// nothing does, then join single edges with a neighbour where threshold,
// relations and the other stretches allow it; for a feature class rounds
// over all lines follow.
type reference struct {
	c     *tgt.Case
	lines []*refLine
	score lnr.ScoreFn
	limit float64
	cons  *ctx.ContextGeometries
	pairs map[[2]*stretch][2]bool

	cuts, splits, joins, refused, apart int // what happened
}

type refLine struct {
	no      int
	line    *tgt.Line
	coords  geom.Coords
	fixed   map[int]bool
	memo    map[[2]int]bool
	made    map[[2]int]*stretch
	now     []*stretch
	changed bool // split since the lines were simplified one by one
	unclear bool // rounding decides
}

// stretch i..j of a line.
type stretch struct {
	l    *refLine
	i, j int
	nd   *node.Node
}

func (s *stretch) path() []geo.P { return s.l.line.Pts[s.i : s.j+1] }
func (s *stretch) seg() []geo.P  { return []geo.P{s.l.line.Pts[s.i], s.l.line.Pts[s.j]} }

func (l *refLine) at(i, j int) *stretch {
	s := l.made[[2]int{i, j}]
	if s == nil {
		s = &stretch{l: l, i: i, j: j, nd: &common.CreateHulls(iter.NewIgen(), [][]int{{i, j}}, l.coords, nil)[0]}
		l.made[[2]int{i, j}] = s
	}
	return s
}

func (r *reference) within(l *refLine, i, j int) (int, bool) {
	k, v := r.score(l.coords.Slice(i, j+1))
	return i + k, v <= r.limit
}

// respects: the segment of s keeps every enabled relation of the stretch.
func (r *reference) respects(s *stretch) bool {
	key := [2]int{s.i, s.j}
	v, ok := s.l.memo[key]
	if !ok {
		v = r.judge(s)
		s.l.memo[key] = v
	}
	return v
}

func (r *reference) judge(s *stretch) bool {
	o := r.c.Opt
	path, seg := s.path(), s.seg()
	for k := range r.c.Cons {
		g := &r.c.Cons[k]
		if o.Geom && g.Meets(path) != g.Meets(seg) {
			return false
		}
		if o.Dist {
			a, b := g.Reach(path, o.MinDist), g.Reach(seg, o.MinDist)
			if a >= 0 && b <= 0 {
				if a == 0 || b == 0 { // rounding decides
					s.l.unclear = true
				}
				return false
			}
		}
	}
	if o.Dir {
		return relate.IsDirRelateValid(s.nd, r.cons)
	}
	return true
}

// flat: every vertex of the stretch lies on its segment.
func (s *stretch) flat() bool {
	a, b := s.l.line.Pts[s.i], s.l.line.Pts[s.j]
	for k := s.i + 1; k < s.j; k++ {
		if !geo.OnSeg(a, b, s.l.line.Pts[k]) {
			return false
		}
	}
	return true
}

// split tells which of two stretches have to be split because of each other.
func (r *reference) split(a, b *stretch) (bool, bool) {
	if v, ok := r.pairs[[2]*stretch{a, b}]; ok {
		return v[0], v[1]
	}
	x, y := r.clash(a, b)
	r.pairs[[2]*stretch{a, b}] = [2]bool{x, y}
	return x, y
}

func (r *reference) clash(a, b *stretch) (bool, bool) {
	if !a.nd.BBox().Intersects(b.nd.BBox()) || !a.nd.Geom.Intersects(b.nd.Geom) {
		return false, false
	}
	if a.l == b.l {
		if _, contig, n := node.IsContiguous(a.nd, b.nd); contig {
			return n > 1 && !a.nd.Collapsible(b.nd), n > 1 && !b.nd.Collapsible(a.nd)
		}
	}
	segs := geo.PathPath(a.seg(), b.seg())
	if !geo.PathPath(a.path(), b.path()) {
		if !segs {
			return false, false
		}
		if geo.PathPath(a.seg(), b.path()) {
			return true, false
		}
		return false, geo.PathPath(b.seg(), a.path())
	}
	if !segs {
		return true, true
	}
	// they met and still meet: not too far away
	lim := r.c.Opts().NonPlanarDisplacement
	was := a.nd.Polyline.Geometry().Intersection(b.nd.Polyline.Geometry())
	now := a.nd.Segment().Intersection(b.nd.Segment())
	for i := range was {
		for k := range now {
			if was[i].Distance(now[k]) > lim {
				return true, true
			}
		}
	}
	return false, false
}

// rounds splits stretches of the lines until none has to be.
func (r *reference) rounds(lines []*refLine, all bool) {
	var work []*stretch
	for _, l := range lines {
		work = append(work, l.now...)
	}
	for len(work) > 0 {
		chosen := map[*stretch]bool{}
		for _, s := range work {
			ok := true
			if r.c.Opt.AvoidSelf {
				for _, l := range lines {
					if all && l == s.l && !l.changed {
						continue
					}
					for _, q := range l.now {
						if q == s {
							continue
						}
						x, y := r.split(s, q)
						if x {
							chosen[s], ok = true, false
						}
						if y {
							chosen[q] = true
						}
					}
				}
			}
			if ok && s.j-s.i > 1 && !s.flat() && !r.respects(s) {
				chosen[s] = true
			}
		}
		work = nil
		for _, l := range lines {
			var next []*stretch
			for _, s := range l.now {
				if !chosen[s] || s.j-s.i == 1 {
					next = append(next, s)
					continue
				}
				k, _ := r.within(l, s.i, s.j)
				a, b := l.at(s.i, k), l.at(k, s.j)
				next = append(next, a, b)
				work = append(work, a, b)
				r.splits++
				if all {
					l.changed = true
				}
			}
			l.now = next
		}
	}
}

// join joins the single edges of a line, from left to right.
func (r *reference) join(l *refLine) {
	var out []*stretch
	done := l.now
	joinable := func(i, j int, rest ...[]*stretch) bool {
		if _, ok := r.within(l, i, j); !ok {
			return false
		}
		m := l.at(i, j)
		ok := true
		if r.c.Opt.AvoidSelf {
			for _, q := range slices.Concat(rest...) {
				x, y := r.split(m, q)
				if x || y {
					r.apart++
					ok = false
				}
			}
		}
		if ok = ok && r.respects(m); !ok {
			r.refused++
		}
		return ok
	}
	for x := 0; x < len(done); x++ {
		p := done[x]
		if p.j-p.i == 1 {
			m := len(out) - 1
			if x+1 < len(done) && !l.fixed[p.j] && joinable(p.i, done[x+1].j, out, done[x+2:]) {
				p = l.at(p.i, done[x+1].j)
				x++
				r.joins++
			} else if m >= 0 && !l.fixed[p.i] && joinable(out[m].i, p.j, out[:m], done[x+1:]) {
				out[m] = l.at(out[m].i, p.j)
				r.joins++
				continue
			}
		}
		out = append(out, p)
	}
	l.now = out
}

func (r *reference) run() {
	for _, l := range r.lines {
		var dp func(i, j int)
		dp = func(i, j int) {
			k, ok := r.within(l, i, j)
			if !ok {
				dp(i, k)
				dp(k, j)
				return
			}
			at := i
			for k := i + 1; k < j; k++ {
				if l.fixed[k] {
					l.now = append(l.now, l.at(at, k))
					at = k
					r.cuts++
				}
			}
			l.now = append(l.now, l.at(at, j))
		}
		dp(0, len(l.line.Pts)-1)
		r.rounds([]*refLine{l}, false)
		r.join(l)
	}
	o := r.c.Opt
	if r.c.FC && (o.AvoidSelf || o.Planar || o.Geom || o.Dist || o.Dir) {
		r.rounds(r.lines, true)
	}
}

// follow compares the result of every line with the reference.
func follow(jc *juncCase) run.Result {
	c := &jc.Case
	var kept [][]int
	if c.FC {
		kept = c.Run()
	} else {
		kept = c.RunJunctions(jc.Junctions)
	}
	o := c.Opts()
	score, sq := c.ScoreFns()
	r := reference{c: c, score: score, limit: o.Threshold, cons: ctx.NewContexts(), pairs: map[[2]*stretch][2]bool{}}
	if len(sq) > 0 {
		r.score, r.limit = sq[0], r.limit*r.limit
	}
	for _, g := range c.Constraints() {
		r.cons.Push(ctx.New(g, 0, -1).AsContextNeighbour())
	}
	shared := make([][]int, len(c.Lines))
	if c.FC && c.Opt.Planar {
		shared = repeated(c.Lines)
	}
	for i := range c.Lines {
		l := &refLine{no: i, line: &c.Lines[i], coords: geom.AsCoordinates(c.Coords(c.Lines[i])),
			fixed: map[int]bool{}, memo: map[[2]int]bool{}, made: map[[2]int]*stretch{}}
		r.lines = append(r.lines, l)
		if c.Opt.Planar {
			for _, k := range repeated(c.Lines[i : i+1])[0] {
				l.fixed[k] = true
			}
		}
		if c.Opt.NonPlanar {
			for _, k := range crossingEnds(c.Lines[i].Pts) {
				l.fixed[k] = true
			}
		}
		for _, k := range shared[i] {
			l.fixed[k] = true
		}
		for _, k := range jc.Junctions {
			l.fixed[k] = l.fixed[k] || i == 0
		}
	}
	r.run()
	unclear := false
	for _, l := range r.lines {
		unclear = unclear || l.unclear
	}
	for i, l := range r.lines {
		want := []int{0}
		for _, s := range l.now {
			want = append(want, s.j)
		}
		if l.unclear || unclear && c.FC && c.Opt.AvoidSelf {
			continue
		}
		if !reflect.DeepEqual(want, kept[i]) {
			return run.Failf("line %d: the result keeps %v, the procedure gives %v", i, kept[i], want)
		}
	}
	ls := labels(c, kept)
	for _, v := range []struct {
		s string
		n int
	}{{"cut at protected vertices", r.cuts}, {"split", r.splits}, {"joined", r.joins}, {"join refused", r.refused}, {"join refused for another stretch", r.apart}} {
		if v.n > 0 {
			ls = append(ls, v.s)
		}
	}
	return run.Result{NonTrivial: r.cuts+r.splits > 0 && dropped(c, kept) > 0, Labels: ls}
}

// minDist draws a minimum distance, often just the distance between some
// stretch, or its segment, and some constraint.
func minDist(t *T, c *tgt.Case) float64 {
	if len(c.Cons) > 0 && gen.Chance(t, 40, "md tie") {
		l := c.Lines[gen.I(t, 0, len(c.Lines)-1, "md line")].Pts
		i := gen.I(t, 0, len(l)-1, "md i")
		j := min(len(l)-1, i+gen.I(t, 1, 12, "md j"))
		path := l[i : j+1]
		if gen.Chance(t, 50, "md seg") {
			path = []geo.P{l[i], l[j]}
		}
		return math.Floor(c.Cons[gen.I(t, 0, len(c.Cons)-1, "md con")].Dist(path))
	}
	d := gen.Threshold(t)
	if gen.Chance(t, 40, "md off") {
		d += 0.0123456
	}
	return d
}

func init() {
	run.Register(run.Prop{ID: "C35", Quick: 360000, Thorough: 2000000,
		Rule: fmt.Sprint("lines and feature classes, constraints, planar and time offsets, every combination of options, against a sequential reference of the documented procedure that judges relations by exact predicates; non-trivial when a stretch was cut at a protected vertex or split and a vertex was dropped")},
		func(t *T) juncCase {
			c := juncCase{Case: base(t, 25)}
			if c.FC && gen.Chance(t, 15, "batch") {
				c.FC = false
			}
			if gen.Chance(t, 20, "sed") {
				sed(t, &c.Case)
			}
			o := &c.Opt
			o.Planar, o.NonPlanar = gen.Chance(t, 40, "p"), gen.Chance(t, 40, "n")
			if !c.FC && (o.Planar || o.NonPlanar) && gen.Chance(t, 25, "junctions") {
				for k := gen.I(t, 1, 4, "nj"); k > 0; k-- {
					c.Junctions = append(c.Junctions, gen.I(t, 0, len(c.Lines[0].Pts)-1, "j"))
				}
			}
			if gen.Chance(t, 50, "avoid") {
				o.AvoidSelf, o.Disp = true, gen.Threshold(t)
			}
			if gen.Chance(t, 80, "relations") {
				o.Geom, o.Dist, o.Dir = gen.Chance(t, 50, "g"), gen.Chance(t, 50, "d"), gen.Chance(t, 40, "h")
				context(t, &c.Case)
			}
			if o.Dist || gen.Chance(t, 20, "md") {
				o.MinDist = minDist(t, &c.Case)
			}
			switch gen.I(t, 0, 3, "place") {
			case 1:
				c.Off = geo.P{int64(gen.I(t, -1000, 1000, "ox")), int64(gen.I(t, -1000, 1000, "oy"))}
				c.Sym = gen.I(t, 0, 7, "sym")
			case 2:
				c.Scale = gen.I(t, -3, 6, "scale")
			}
			return c
		}, follow)
}
