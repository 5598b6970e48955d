package props

import (
	"fmt"
	"math"

	"verifharness/geo"
	"verifharness/tgt"
)

// ---- oracles on the kept vertices of one line --------------------------------

func badKept(kept []int, n int) string {
	if len(kept) < 2 {
		return fmt.Sprintf("only %d vertices kept of %d: %v", len(kept), n, kept)
	}
	if kept[0] != 0 || kept[len(kept)-1] != n-1 {
		return fmt.Sprintf("end points lost: kept %v of %d vertices", kept, n)
	}
	for i := 1; i < len(kept); i++ {
		if kept[i] <= kept[i-1] {
			return fmt.Sprintf("vertices not in input order: %v", kept)
		}
	}
	return ""
}

// piece is a stretch i..j of the input replaced by the segment (i, j).
type piece struct{ i, j int }

func pieces(kept []int) []piece {
	var out []piece
	for i := 0; i+1 < len(kept); i++ {
		out = append(out, piece{kept[i], kept[i+1]})
	}
	return out
}

func (p piece) path(pts []geo.P) []geo.P { return pts[p.i : p.j+1] }
func (p piece) seg(pts []geo.P) []geo.P  { return []geo.P{pts[p.i], pts[p.j]} }

const relEps = 1e-9

// sedDist is the synchronised distance of vertex k from segment (i, j); when
// no time passes along the segment that is the distance from its start.
func sedDist(l *tgt.Line, i, j, k int) float64 {
	a, b, p := l.Pts[i], l.Pts[j], l.Pts[k]
	if l.T[i] == l.T[j] {
		return math.Hypot(float64(p[0]-a[0]), float64(p[1]-a[1]))
	}
	f := float64(l.T[k]-l.T[i]) / float64(l.T[j]-l.T[i])
	x := float64(a[0]) + f*float64(b[0]-a[0])
	y := float64(a[1]) + f*float64(b[1]-a[1])
	return math.Hypot(float64(p[0])-x, float64(p[1])-y)
}

func dpDist(l *tgt.Line, i, j, k int) float64 {
	return geo.PtSegDist(l.Pts[i], l.Pts[j], l.Pts[k])
}

// overThreshold reports a dropped vertex farther than thr from its segment.
func overThreshold(l *tgt.Line, kept []int, thr float64, sed bool) string {
	d := dpDist
	if sed {
		d = sedDist
	}
	for _, p := range pieces(kept) {
		for k := p.i + 1; k < p.j; k++ {
			if v := d(l, p.i, p.j, k); v > thr*(1+relEps)+1e-7 {
				return fmt.Sprintf("vertex %d dropped at offset %g > threshold %g from segment (%d,%d)", k, v, thr, p.i, p.j)
			}
		}
	}
	return ""
}

// farFromLine reports an input vertex farther than lim from the whole result.
func farFromLine(l *tgt.Line, kept []int, lim float64, sed bool) string {
	ps := pieces(kept)
	for q, p := range ps {
		for k := p.i + 1; k < p.j; k++ {
			var v float64
			if sed {
				v = sedDist(l, p.i, p.j, k)
			} else {
				v = math.Inf(1)
				_ = q
				for _, o := range ps {
					v = math.Min(v, geo.PtSegDist(l.Pts[o.i], l.Pts[o.j], l.Pts[k]))
				}
			}
			if v > lim*(1+relEps)+1e-7 {
				return fmt.Sprintf("vertex %d is %g from the simplified line, over %g", k, v, lim)
			}
		}
	}
	return ""
}

// geomRelation reports a piece whose intersect/disjoint relation changed.
func geomRelation(l *tgt.Line, kept []int, cons []geo.Obj) (msg string, strong int) {
	for _, p := range pieces(kept) {
		if p.j-p.i < 2 {
			continue
		}
		for c := range cons {
			o := &cons[c]
			a, b := o.Meets(p.path(l.Pts)), o.Meets(p.seg(l.Pts))
			if a != b {
				return fmt.Sprintf("constraint %d %s: input stretch %d..%d meets it: %v, its segment: %v", c, o.Kind, p.i, p.j, a, b), 0
			}
		}
	}
	return "", 0
}

// distRelation reports a piece that came closer than minDist to a constraint
// its input stretch kept away from.
func distRelation(l *tgt.Line, kept []int, cons []geo.Obj, minDist float64) string {
	for _, p := range pieces(kept) {
		if p.j-p.i < 2 {
			continue
		}
		for c := range cons {
			o := &cons[c]
			if o.Reach(p.seg(l.Pts), minDist) < 0 && o.Reach(p.path(l.Pts), minDist) > 0 {
				a, b := o.Dist(p.path(l.Pts)), o.Dist(p.seg(l.Pts))
				return fmt.Sprintf("constraint %d %s: input stretch %d..%d at %g, segment at %g < %g", c, o.Kind, p.i, p.j, a, b, minDist)
			}
		}
	}
	return ""
}

// homotopy reports a piece that moved across a constraint.
func homotopy(l *tgt.Line, kept []int, cons []geo.Obj) string {
	for _, p := range pieces(kept) {
		if p.j-p.i < 2 {
			continue
		}
		path, seg := p.path(l.Pts), p.seg(l.Pts)
		var obs []geo.P
		for c := range cons {
			o := &cons[c]
			a, b := o.Meets(path), o.Meets(seg)
			if a != b {
				return fmt.Sprintf("constraint %d %s: input stretch %d..%d meets it: %v, its segment: %v", c, o.Kind, p.i, p.j, a, b)
			}
			if !a {
				obs = append(obs, o.Rings[0][0])
			}
		}
		if !geo.SameWord(geo.HomotopyWord(path, obs), geo.HomotopyWord(seg, obs)) {
			return fmt.Sprintf("stretch %d..%d and its segment are not homotopic about %v", p.i, p.j, obs)
		}
	}
	return ""
}

// newSelfInters reports two result segments that meet although the stretches of
// the input they stand for did not.
func newSelfInters(l *tgt.Line, kept []int) string {
	ps := pieces(kept)
	for x := 0; x < len(ps); x++ {
		for y := x + 1; y < len(ps); y++ {
			p, q := ps[x], ps[y]
			if p.j-p.i < 2 && q.j-q.i < 2 {
				continue
			}
			if m := newInters(l.Pts, l.Pts, p, q, p.j == q.i, p.i == 0 && q.j == len(l.Pts)-1); m != "" {
				return m
			}
		}
	}
	return ""
}

func newInters(A, B []geo.P, p, q piece, adj, ends bool) string {
	a, b, c, d := A[p.i], A[p.j], B[q.i], B[q.j]
	if !geo.SegSeg(a, b, c, d) {
		return ""
	}
	if adj {
		if !geo.AdjOverlap(a, b, d) {
			return ""
		}
		// did the stretches meet beyond the common vertex?
		pp, qp := A[p.i:p.j], B[q.i+1:q.j+1]
		// the last edge of one against the other
		if geo.PathPath(A[p.i:p.j+1], qp) || geo.PathPath(pp, B[q.i:q.j+1]) || geo.AdjOverlap(A[p.j-1], b, B[q.i+1]) {
			return ""
		}
		return fmt.Sprintf("consecutive segments (%d,%d) (%d,%d) fold onto each other", p.i, p.j, q.i, q.j)
	}
	if geo.PathPath(A[p.i:p.j+1], B[q.i:q.j+1]) {
		return ""
	}
	return fmt.Sprintf("segments (%d,%d) and (%d,%d) meet, their input stretches do not", p.i, p.j, q.i, q.j)
}

// lostInters reports two stretches that met while their segments do not.
func lostInters(A, B []geo.P, ka, kb []int, same bool) string {
	pa, pb := pieces(ka), pieces(kb)
	for x, p := range pa {
		for y, q := range pb {
			if same && y <= x+1 {
				continue
			}
			if p.j-p.i < 2 && q.j-q.i < 2 {
				continue
			}
			if geo.PathPath(A[p.i:p.j+1], B[q.i:q.j+1]) && !geo.SegSeg(A[p.i], A[p.j], B[q.i], B[q.j]) {
				return fmt.Sprintf("stretches %d..%d and %d..%d met, segments do not", p.i, p.j, q.i, q.j)
			}
		}
	}
	return ""
}

// repeated lists the indices whose coordinates occur more than once over lines.
func repeated(lines []tgt.Line) [][]int {
	seen := map[geo.P]int{}
	for _, l := range lines {
		for _, p := range l.Pts {
			seen[p]++
		}
	}
	out := make([][]int, len(lines))
	for i, l := range lines {
		for k, p := range l.Pts {
			if seen[p] > 1 {
				out[i] = append(out[i], k)
			}
		}
	}
	return out
}

func missing(kept, want []int) (int, bool) {
	has := map[int]bool{}
	for _, k := range kept {
		has[k] = true
	}
	for _, w := range want {
		if !has[w] {
			return w, true
		}
	}
	return 0, false
}

// crossingEnds lists the end points of the segments of a line that meet at a
// point that is not a common vertex of both.
func crossingEnds(pts []geo.P) []int {
	set := map[int]bool{}
	for i := 0; i+1 < len(pts); i++ {
		for j := i + 1; j+1 < len(pts); j++ {
			a, b, c, d := pts[i], pts[i+1], pts[j], pts[j+1]
			if !geo.SegSeg(a, b, c, d) {
				continue
			}
			np := geo.ProperCross(a, b, c, d)
			if !np {
				for _, v := range []struct {
					p       geo.P
					x, y, z geo.P
				}{{a, c, d, b}, {b, c, d, a}, {c, a, b, d}, {d, a, b, c}} {
					if geo.OnSeg(v.x, v.y, v.p) && v.p != v.x && v.p != v.y {
						np = true
					}
				}
			}
			if np {
				set[i], set[i+1], set[j], set[j+1] = true, true, true, true
			}
		}
	}
	var out []int
	for i := range pts {
		if set[i] {
			out = append(out, i)
		}
	}
	return out
}

// crossInters applies newInters to two different lines.
func crossInters(A, B []geo.P, ka, kb []int) string {
	for _, p := range pieces(ka) {
		for _, q := range pieces(kb) {
			if p.j-p.i < 2 && q.j-q.i < 2 {
				continue
			}
			if m := newInters(A, B, p, q, false, false); m != "" {
				return m
			}
		}
	}
	return ""
}

// displaced reports two result segments that cross farther than disp from a
// crossing of the stretches they stand for (pieces sharing an end are exempt).
func displaced(A, B []geo.P, ka, kb []int, same bool, disp float64) string {
	pa, pb := pieces(ka), pieces(kb)
	for x, p := range pa {
		for y, q := range pb {
			if same && y <= x+1 {
				continue
			}
			if p.j-p.i < 2 && q.j-q.i < 2 {
				continue
			}
			a, b, c, d := A[p.i], A[p.j], B[q.i], B[q.j]
			if same && (a == c || a == d || b == c || b == d) {
				continue
			}
			ss := geo.SegSegPoints(a, b, c, d)
			for i := p.i; i < p.j; i++ {
				for j := q.i; j < q.j; j++ {
					for _, o := range geo.SegSegPoints(A[i], A[i+1], B[j], B[j+1]) {
						for _, s := range ss {
							if v := math.Hypot(o[0]-s[0], o[1]-s[1]); v > disp*(1+relEps)+1e-6 {
								return fmt.Sprintf("segments (%d,%d) (%d,%d) cross %g from the crossing of %d-%d and %d-%d (limit %g)", p.i, p.j, q.i, q.j, v, i, i+1, j, j+1, disp)
							}
						}
					}
				}
			}
		}
	}
	return ""
}

// pulledStraight drops vertices of the path, from its start to its end and again
// while any can be dropped, whose triangle with both neighbours is free of
// constraints, and tells whether only the ends are left.
func pulledStraight(path []geo.P, cons []geo.Obj) bool {
	p := append([]geo.P{}, path...)
	for more := true; more && len(p) > 2; {
		more = false
		for i := 1; i+1 < len(p); {
			tri := geo.Obj{Kind: geo.KPolygon, Rings: [][]geo.P{{p[i-1], p[i], p[i+1], p[i-1]}}}
			free := true
			for k := range cons {
				if objBoxesMeet(&tri, &cons[k]) && objDist(&tri, &cons[k]) == 0 {
					free = false
					break
				}
			}
			if free {
				p = append(p[:i], p[i+1:]...)
				more = true
			} else {
				i++
			}
		}
	}
	return len(p) == 2
}

func objBoxesMeet(a, b *geo.Obj) bool {
	for k := 0; k < 2; k++ {
		lo, hi := a.Rings[0][0][k], a.Rings[0][0][k]
		for _, p := range a.Rings[0] {
			lo, hi = min(lo, p[k]), max(hi, p[k])
		}
		below, above := true, true
		for _, p := range b.Rings[0] {
			below, above = below && p[k] < lo, above && p[k] > hi
		}
		if below || above {
			return false
		}
	}
	return true
}
