// Package geo is the checks' own planar geometry: exact predicates on integer
// coordinates (|c| < 2^28), written independently of the geometry library the
// code under test uses.
package geo

import "math"

// P is an integer grid point.
type P [2]int64

// Kind of a constraint object.
const (
	KPoint   = "point"
	KLine    = "line"
	KPolygon = "polygon"
)

// Obj is a planar constraint object on the grid. A point has one ring with one
// vertex, a line one ring, a polygon a closed shell followed by closed holes.
type Obj struct {
	Kind  string `json:"kind"`
	Rings [][]P  `json:"rings"`
}

func sgn(v int64) int {
	if v > 0 {
		return 1
	} else if v < 0 {
		return -1
	}
	return 0
}

func cross(a, b, c P) int64 {
	return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])
}

// Orient is the sign of the turn a -> b -> c.
func Orient(a, b, c P) int { return sgn(cross(a, b, c)) }

func between(a, b, v int64) bool {
	if a > b {
		a, b = b, a
	}
	return a <= v && v <= b
}

// OnSeg tells whether p lies on the closed segment ab (which may be a point).
func OnSeg(a, b, p P) bool {
	return Orient(a, b, p) == 0 && between(a[0], b[0], p[0]) && between(a[1], b[1], p[1])
}

// SegSeg tells whether closed segments ab and cd share a point.
func SegSeg(a, b, c, d P) bool {
	if max(a[0], b[0]) < min(c[0], d[0]) || max(c[0], d[0]) < min(a[0], b[0]) ||
		max(a[1], b[1]) < min(c[1], d[1]) || max(c[1], d[1]) < min(a[1], b[1]) {
		return false
	}
	if a == b {
		return OnSeg(c, d, a)
	}
	if c == d {
		return OnSeg(a, b, c)
	}
	o1, o2 := Orient(a, b, c), Orient(a, b, d)
	o3, o4 := Orient(c, d, a), Orient(c, d, b)
	if o1*o2 < 0 && o3*o4 < 0 {
		return true
	}
	return o1 == 0 && OnSeg(a, b, c) || o2 == 0 && OnSeg(a, b, d) ||
		o3 == 0 && OnSeg(c, d, a) || o4 == 0 && OnSeg(c, d, b)
}

// ProperCross: the open segments cross in exactly one interior point of both.
func ProperCross(a, b, c, d P) bool {
	return Orient(a, b, c)*Orient(a, b, d) < 0 && Orient(c, d, a)*Orient(c, d, b) < 0
}

// PathSeg tells whether a path (>= 1 vertex) meets segment cd.
func PathSeg(p []P, c, d P) bool {
	if len(p) == 1 {
		return OnSeg(c, d, p[0])
	}
	for i := 0; i+1 < len(p); i++ {
		if SegSeg(p[i], p[i+1], c, d) {
			return true
		}
	}
	return false
}

// PathPath tells whether two paths share a point.
func PathPath(p, q []P) bool {
	if len(q) == 1 {
		return PathSeg(p, q[0], q[0])
	}
	for i := 0; i+1 < len(q); i++ {
		if PathSeg(p, q[i], q[i+1]) {
			return true
		}
	}
	return false
}

// InRing: -1 outside, 0 on the boundary, 1 strictly inside a closed ring.
func InRing(ring []P, p P) int {
	in := false
	for i := 0; i+1 < len(ring); i++ {
		a, b := ring[i], ring[i+1]
		if OnSeg(a, b, p) {
			return 0
		}
		if (a[1] > p[1]) != (b[1] > p[1]) {
			o := Orient(a, b, p)
			if b[1] < a[1] {
				o = -o
			}
			if o > 0 {
				in = !in
			}
		}
	}
	if in {
		return 1
	}
	return -1
}

// InPolygon tells whether p is in the closed region (boundary included).
func (o *Obj) InPolygon(p P) bool {
	if InRing(o.Rings[0], p) < 0 {
		return false
	}
	for _, h := range o.Rings[1:] {
		if InRing(h, p) > 0 {
			return false
		}
	}
	return true
}

// Meets tells whether the path (>= 1 vertex) shares a point with the object.
func (o *Obj) Meets(path []P) bool {
	switch o.Kind {
	case KPoint:
		return PathSeg(path, o.Rings[0][0], o.Rings[0][0])
	case KLine:
		return PathPath(path, o.Rings[0])
	default:
		for _, r := range o.Rings {
			if PathPath(path, r) {
				return true
			}
		}
		return o.InPolygon(path[0])
	}
}

// PtSegDist is the distance from p to segment ab in float64 (inputs exact).
func PtSegDist(a, b, p P) float64 {
	dx, dy := b[0]-a[0], b[1]-a[1]
	px, py := p[0]-a[0], p[1]-a[1]
	l2 := dx*dx + dy*dy
	if l2 == 0 {
		return math.Hypot(float64(px), float64(py))
	}
	dot := px*dx + py*dy
	if dot <= 0 {
		return math.Hypot(float64(px), float64(py))
	}
	if dot >= l2 {
		return math.Hypot(float64(p[0]-b[0]), float64(p[1]-b[1]))
	}
	return math.Abs(float64(cross(a, b, p))) / math.Sqrt(float64(l2))
}

// SegSegDist is the distance between two closed segments.
func SegSegDist(a, b, c, d P) float64 {
	if SegSeg(a, b, c, d) {
		return 0
	}
	return math.Min(math.Min(PtSegDist(a, b, c), PtSegDist(a, b, d)),
		math.Min(PtSegDist(c, d, a), PtSegDist(c, d, b)))
}

// PathPathDist is the distance between two paths.
func PathPathDist(p, q []P) float64 {
	best := math.Inf(1)
	np, nq := len(p)-1, len(q)-1
	for i := 0; i < max(np, 1); i++ {
		for j := 0; j < max(nq, 1); j++ {
			best = math.Min(best, SegSegDist(p[i], p[min(i+1, np)], q[j], q[min(j+1, nq)]))
		}
	}
	return best
}

// Dist is the distance from a path to the object.
func (o *Obj) Dist(path []P) float64 {
	if o.Kind == KPolygon && o.InPolygon(path[0]) {
		return 0
	}
	best := math.Inf(1)
	for _, r := range o.Rings {
		best = math.Min(best, PathPathDist(path, r))
	}
	return best
}

// Reach compares the distance from a path to the object with r: -1 when it is
// below, 1 when it is r or more, 0 when rounding decides. Equality counts only
// where no rounding can enter: every pair of segments at that distance is that
// far apart along an axis.
func (o *Obj) Reach(path []P, r float64) int {
	if r <= 0 {
		return 1
	}
	d := o.Dist(path)
	tol := 1e-7 * (1 + d)
	if d < r-tol {
		return -1
	}
	if d > r+tol {
		return 1
	}
	np := len(path) - 1
	for i := 0; i < max(np, 1); i++ {
		a, b := path[i], path[min(i+1, np)]
		for _, q := range o.Rings {
			nq := len(q) - 1
			for j := 0; j < max(nq, 1); j++ {
				c, e := q[j], q[min(j+1, nq)]
				for _, v := range [4][3]P{{a, b, c}, {a, b, e}, {c, e, a}, {c, e, b}} {
					if x := PtSegDist(v[0], v[1], v[2]); math.Abs(x-r) <= tol && (x != r || !alongAxis(v[0], v[1], v[2])) {
						return 0
					}
				}
			}
		}
	}
	return 1
}

// alongAxis: p lies from segment ab straight along an axis.
func alongAxis(a, b, p P) bool {
	dx, dy := b[0]-a[0], b[1]-a[1]
	px, py := p[0]-a[0], p[1]-a[1]
	dot := px*dx + py*dy
	switch {
	case dot <= 0:
		return px == 0 || py == 0
	case dot >= dx*dx+dy*dy:
		return p[0] == b[0] || p[1] == b[1]
	default:
		return dx == 0 || dy == 0
	}
}

// SimplePath tells whether a path is simple: consecutive segments share only
// their common vertex, other segments are disjoint (a closed path may share its
// end points), and no segment is degenerate.
func SimplePath(p []P) bool {
	n := len(p) - 1
	closed := n > 2 && p[0] == p[n]
	for i := 0; i < n; i++ {
		if p[i] == p[i+1] {
			return false
		}
		for j := i + 1; j < n; j++ {
			if j == i+1 {
				if AdjOverlap(p[i], p[i+1], p[j+1]) {
					return false
				}
				continue
			}
			if closed && i == 0 && j == n-1 {
				if AdjOverlap(p[1], p[0], p[j]) {
					return false
				}
				continue
			}
			if SegSeg(p[i], p[i+1], p[j], p[j+1]) {
				return false
			}
		}
	}
	return true
}

// AdjOverlap: segments ab and bc share more than the point b.
func AdjOverlap(a, b, c P) bool {
	if a == b || b == c {
		return false
	}
	if Orient(a, b, c) != 0 {
		return false
	}
	return (a[0]-b[0])*(c[0]-b[0])+(a[1]-b[1])*(c[1]-b[1]) > 0
}

// ---------------------------------------------------------------------------
// exact rational intersection points

// Q is a rational point (X/W, Y/W), W > 0, not reduced.
type Q struct{ X, Y, W float64 }

// XY is the point in float64.
func (q Q) XY() (float64, float64) { return q.X / q.W, q.Y / q.W }

// SegSegPoints lists the intersection of two segments: nothing, one point, or
// the two ends of a shared stretch. Coordinates are float64 (error ~1e-15 rel).
func SegSegPoints(a, b, c, d P) [][2]float64 {
	var out [][2]float64
	add := func(p P) {
		f := [2]float64{float64(p[0]), float64(p[1])}
		for _, o := range out {
			if o == f {
				return
			}
		}
		out = append(out, f)
	}
	if !SegSeg(a, b, c, d) {
		return nil
	}
	if ProperCross(a, b, c, d) {
		den := (b[0]-a[0])*(d[1]-c[1]) - (b[1]-a[1])*(d[0]-c[0])
		num := (c[0]-a[0])*(d[1]-c[1]) - (c[1]-a[1])*(d[0]-c[0])
		t := float64(num) / float64(den)
		return [][2]float64{{float64(a[0]) + t*float64(b[0]-a[0]), float64(a[1]) + t*float64(b[1]-a[1])}}
	}
	for _, p := range []P{a, b} {
		if OnSeg(c, d, p) {
			add(p)
		}
	}
	for _, p := range []P{c, d} {
		if OnSeg(a, b, p) {
			add(p)
		}
	}
	return out
}

// ---------------------------------------------------------------------------
// homotopy: reduced word of a path against rays going up from obstacle points

// HomotopyWord is the reduced crossing word of a path over upward vertical rays
// from the points obs (none of which may lie on the path). Rays are taken at
// x + epsilon, so vertices exactly above an obstacle are handled consistently.
// Two paths with the same ends that avoid obs are homotopic in the plane minus
// obs exactly when their words agree.
func HomotopyWord(path []P, obs []P) []int {
	var w []int
	push := func(l int) {
		if n := len(w); n > 0 && w[n-1] == -l {
			w = w[:n-1]
			return
		}
		w = append(w, l)
	}
	type hit struct {
		k        int
		num, den int64
	}
	for i := 0; i+1 < len(path); i++ {
		a, b := path[i], path[i+1]
		var hits []hit
		for k, o := range obs {
			// side of ray x = o.x + eps : left when x <= o.x
			la, lb := a[0] <= o[0], b[0] <= o[0]
			if la == lb {
				continue
			}
			// crossing above o ? exact: orient sign at x = o.x + eps.
			s := Orient(a, b, o)
			if b[0] < a[0] {
				s = -s
			}
			// s > 0: o left of the rightward segment = above it => ray above misses
			if s >= 0 {
				// s == 0 cannot be on the segment by precondition, except at
				// the eps shift, where the segment starts at x = o.x: then o
				// would be the end point itself, excluded too.
				if s > 0 {
					continue
				}
			}
			hits = append(hits, hit{k, o[0] - a[0], b[0] - a[0]})
		}
		// order along the segment by x (ties: same x, order by obstacle height
		// is immaterial for the free group only if consistent; rays with equal
		// x are nested, the higher obstacle's ray is a suffix of the lower's).
		right := b[0] > a[0]
		for x := 1; x < len(hits); x++ {
			for y := x; y > 0; y-- {
				p, q := hits[y-1], hits[y]
				less := obs[q.k][0] < obs[p.k][0]
				if !right {
					less = obs[q.k][0] > obs[p.k][0]
				}
				if obs[q.k][0] == obs[p.k][0] {
					// same ray line: fixed order lowest obstacle first going
					// right, last going left
					if right {
						less = q.k < p.k
					} else {
						less = q.k > p.k
					}
				}
				if less {
					hits[y-1], hits[y] = q, p
				} else {
					break
				}
			}
		}
		for _, h := range hits {
			if right {
				push(h.k + 1)
			} else {
				push(-(h.k + 1))
			}
		}
	}
	return w
}

// SameWord compares two words.
func SameWord(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
