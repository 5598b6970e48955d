// Package gen holds the structured generators of the checks (all randomness is
// drawn from rapid, so every case shrinks and replays).
package gen

import (
	"math"
	"sort"

	"pgregory.net/rapid"

	"verifharness/geo"
	"verifharness/tgt"
)

type T = rapid.T

func I(t *T, lo, hi int, name string) int { return rapid.IntRange(lo, hi).Draw(t, name) }

var coin = rapid.Bool()

// Chance is true about p times in 100 (fair bits: rapid's integer generators
// are biased towards small values); shrinks to false.
func Chance(t *T, p int, name string) bool {
	v := 0
	for i := 0; i < 7; i++ {
		v <<= 1
		if coin.Draw(t, name) {
			v |= 1
		}
	}
	return v*100 >= (100-p)*128
}

func pick[V any](t *T, name string, vs ...V) V { return rapid.SampledFrom(vs).Draw(t, name) }

func pt(t *T, s int) geo.P { return geo.P{int64(I(t, -s, s, "x")), int64(I(t, -s, s, "y"))} }

// size draws a vertex count: mostly small, sometimes long.
func size(t *T, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	switch I(t, 0, 9, "sz") {
	case 0, 1:
		return I(t, lo, min(lo+3, hi), "n")
	case 2, 3, 4, 5:
		return I(t, lo, min(lo+12, hi), "n")
	case 6, 7, 8:
		return I(t, lo, max(lo, hi/2), "n")
	default:
		return I(t, lo, hi, "n")
	}
}

// Families of lines.
var Families = []string{"walk", "chain", "zigzag", "dense", "snake", "spiral", "ring", "star", "revisit", "comb", "loops", "band"}

// Path draws the vertices of one line of at most maxN vertices.
func Path(t *T, fam string, maxN int) []geo.P {
	var ps []geo.P
	lo := 2
	if maxN > 100 && maxN <= 1000 && Chance(t, 50, "full") {
		lo = maxN / 3
	}
	n := size(t, lo, maxN)
	switch fam {
	case "walk": // random walk
		s := pick(t, "step", 2, 5, 10, 30)
		p := pt(t, 50)
		for i := 0; i < n; i++ {
			ps = append(ps, p)
			d := pt(t, s)
			p = geo.P{p[0] + d[0], p[1] + d[1]}
		}
	case "chain": // x-monotone: always simple
		h := pick(t, "h", 2, 8, 40)
		x := int64(I(t, -20, 20, "x0"))
		for i := 0; i < n; i++ {
			ps = append(ps, geo.P{x, int64(I(t, -h, h, "y"))})
			x += int64(I(t, 1, 6, "dx"))
		}
	case "zigzag": // noise about a slanted base line
		dx, dy := int64(I(t, -8, 8, "dx")), int64(I(t, -8, 8, "dy"))
		h := pick(t, "h", 1, 3, 12)
		for i := 0; i < n; i++ {
			q := pt(t, h)
			ps = append(ps, geo.P{int64(i)*dx + q[0], int64(i)*dy + q[1]})
		}
	case "dense": // random points in a small box: many crossings
		s := pick(t, "box", 2, 4, 10, 25)
		for i := 0; i < n; i++ {
			ps = append(ps, pt(t, s))
		}
	case "snake": // boustrophedon rows
		w, gap := int64(I(t, 4, 40, "w")), int64(I(t, 2, 9, "gap"))
		for i := 0; len(ps) < n; i++ {
			y := int64(i) * gap
			m := I(t, 1, 4, "m")
			xs := []int64{0, w}
			for j := 0; j < m; j++ {
				xs = append(xs, int64(I(t, 0, int(w), "x")))
			}
			sort.Slice(xs, func(a, b int) bool { return (xs[a] < xs[b]) == (i%2 == 0) && xs[a] != xs[b] })
			for _, x := range xs {
				ps = append(ps, geo.P{x, y + int64(I(t, 0, int(gap)/2, "j"))})
			}
		}
		ps = ps[:n]
	case "spiral":
		step := pick(t, "dth", 0.5, 0.8, 1.1, 1.6)
		g := float64(I(t, 1, 6, "g"))
		for i := 0; i < n; i++ {
			a := float64(i) * step
			r := 4 + g*a + float64(I(t, 0, 2, "j"))
			ps = append(ps, geo.P{int64(math.Round(r * math.Cos(a))), int64(math.Round(r * math.Sin(a)))})
		}
	case "ring": // closed, star-shaped
		n = max(n, 4)
		r0, jit := I(t, 6, 60, "r"), I(t, 0, 20, "jit")
		for i := 0; i < n-1; i++ {
			a := 2 * math.Pi * float64(i) / float64(n-1)
			r := float64(r0 + I(t, 0, jit, "j"))
			ps = append(ps, geo.P{int64(math.Round(r * math.Cos(a))), int64(math.Round(r * math.Sin(a)))})
		}
		ps = append(ps, ps[0])
	case "star": // leaves a hub and comes back to it
		hub := pt(t, 5)
		for len(ps) < n {
			ps = append(ps, hub)
			for m := I(t, 1, 5, "m"); m > 0 && len(ps) < n; m-- {
				ps = append(ps, pt(t, 30))
			}
		}
	case "revisit": // walk that returns to earlier vertices
		p := pt(t, 10)
		for i := 0; i < n; i++ {
			ps = append(ps, p)
			if i > 2 && Chance(t, 15, "rev") {
				p = ps[I(t, 0, i-1, "back")]
			} else {
				d := pt(t, 12)
				p = geo.P{p[0] + d[0], p[1] + d[1]}
			}
		}
	case "loops": // a noisy closed curve that crosses itself now and then
		n = max(n, I(t, 6, max(6, min(maxN, 60)), "ln"))
		fa, fb := float64(I(t, 1, 3, "fa")), float64(I(t, 1, 4, "fb"))
		r, j := float64(pick(t, "r", 12, 40, 120)), pick(t, "jit", 0, 1, 3)
		ph := float64(I(t, 0, 7, "ph")) / 4
		turns := float64(I(t, 2, 5, "turns")) / 3
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * turns * float64(i) / float64(n)
			d := geo.P{}
			if j > 0 {
				d = pt(t, j)
			}
			ps = append(ps, geo.P{int64(math.Round(r*math.Sin(fa*a+ph))) + d[0], int64(math.Round(r*math.Sin(fb*a))) + d[1]})
		}
	case "band": // back and forth within a narrow band, in legs of many vertices
		h := pick(t, "h", 1, 4, 12)
		x, dir := int64(0), int64(1)
		step := pick(t, "step", 1, 3, 8)
		for len(ps) < n {
			left := n - len(ps)
			m := I(t, 1, left, "leg")
			if Chance(t, 60, "long leg") {
				m = max(left-I(t, 0, 12, "rest"), 1)
				if len(ps) == 0 {
					m = max(left-I(t, 0, left/2, "rest"), 1)
				}
			}
			for ; m > 0; m-- {
				ps = append(ps, geo.P{x, int64(I(t, -h, h, "y"))})
				x += dir * int64(I(t, 1, step, "dx"))
			}
			dir = -dir
		}
	case "comb": // teeth
		w := int64(I(t, 2, 6, "w"))
		for i := 0; len(ps) < n; i++ {
			x := int64(i) * w
			h := int64(I(t, 1, 30, "h"))
			ps = append(ps, geo.P{x, 0}, geo.P{x + int64(I(t, 0, 1, "lean")), h}, geo.P{x + w - 1, h + int64(I(t, -2, 2, "dh"))}, geo.P{x + w - 1, int64(I(t, -1, 1, "b"))})
		}
		ps = ps[:n]
	}
	return ps
}

// Dedup removes consecutive duplicate vertices (keeping at least two vertices).
func Dedup(ps []geo.P) []geo.P {
	out := ps[:1:1]
	for _, p := range ps[1:] {
		if p != out[len(out)-1] {
			out = append(out, p)
		}
	}
	if len(out) == 1 {
		out = append(out, geo.P{out[0][0] + 3, out[0][1] + 1})
	}
	return out
}

// tame cuts a long path off where it has met itself 1500 times: the cost of the
// self-intersection options grows with the meetings times the vertices.
func tame(ps []geo.P) []geo.P {
	if len(ps) < 60 {
		return ps
	}
	n := 0
	for j := 1; j < len(ps); j++ {
		for i := 1; i < j-1; i++ {
			if geo.SegSeg(ps[i-1], ps[i], ps[j-1], ps[j]) {
				n++
			}
		}
		if n > 1500 {
			return ps[:j+1]
		}
	}
	return ps
}

// AnyPath draws a path of any family, without consecutive duplicates, rotated.
func AnyPath(t *T, maxN int) ([]geo.P, string) {
	fam := rapid.SampledFrom(Families).Draw(t, "fam")
	if maxN > 100 && Chance(t, 25, "band") {
		fam = "band"
	}
	ps := tame(Dedup(Path(t, fam, maxN)))
	switch I(t, 0, 3, "rot") {
	case 1:
		for i, p := range ps {
			ps[i] = geo.P{-p[1], p[0]}
		}
	case 2:
		for i, p := range ps {
			ps[i] = geo.P{-p[0], -p[1]}
		}
	case 3:
		for i, p := range ps {
			ps[i] = geo.P{p[1], -p[0]}
		}
	}
	return ps, fam
}

// MakeSimple perturbs a path into a simple one by dropping the vertices that
// make it self-touching.
func MakeSimple(ps []geo.P) []geo.P {
	out := []geo.P{ps[0]}
	for _, p := range ps[1:] {
		a := out[len(out)-1]
		if p == a {
			continue
		}
		ok := true
		for i := 0; i+1 < len(out) && ok; i++ {
			if i+2 == len(out) {
				ok = !geo.AdjOverlap(out[i], a, p)
			} else {
				ok = !geo.SegSeg(out[i], out[i+1], a, p)
			}
		}
		if ok {
			out = append(out, p)
		}
	}
	if len(out) == 1 {
		out = append(out, geo.P{out[0][0] + 3, out[0][1] + 1})
	}
	return out
}

// Near draws a point close to the lines: near a vertex, a segment, or a chord.
func Near(t *T, lines []tgt.Line) geo.P {
	l := lines[I(t, 0, len(lines)-1, "li")].Pts
	i := I(t, 0, len(l)-1, "vi")
	j := min(i+I(t, 1, 12, "span"), len(l)-1)
	a, b := l[i], l[j]
	f := int64(I(t, 0, 8, "f"))
	s := pick(t, "off", 0, 1, 2, 5, 15)
	d := pt(t, s)
	return geo.P{a[0] + (b[0]-a[0])*f/8 + d[0], a[1] + (b[1]-a[1])*f/8 + d[1]}
}

// Polygon draws a star-shaped polygon about c, perhaps with a hole.
func Polygon(t *T, c geo.P) geo.Obj {
	r0 := pick(t, "r", 1, 2, 4, 9, 30, 80)
	mk := func(r, n int) []geo.P {
		var ring []geo.P
		for i := 0; i < n; i++ {
			a := 2*math.Pi*float64(i)/float64(n) + 0.3
			q := float64(r) * (1 + 0.1*float64(I(t, 0, 8, "rj")))
			p := geo.P{c[0] + int64(math.Round(q*math.Cos(a))), c[1] + int64(math.Round(q*math.Sin(a)))}
			if len(ring) == 0 || ring[len(ring)-1] != p {
				ring = append(ring, p)
			}
		}
		return append(ring, ring[0])
	}
	shell := mk(r0+1, pick(t, "pn", 3, 4, 5, 8, 20, 20, 60))
	o := geo.Obj{Kind: geo.KPolygon, Rings: [][]geo.P{shell}}
	if !geo.SimplePath(shell) || len(shell) < 4 {
		r := int64(r0)
		o.Rings[0] = []geo.P{{c[0] - r, c[1] - r}, {c[0] + r, c[1] - r}, {c[0] + r, c[1] + r}, {c[0] - r, c[1] + r}, {c[0] - r, c[1] - r}}
	}
	if r0 >= 9 && Chance(t, 40, "hole") {
		h := mk(r0/3, pick(t, "hn", 3, 4, 6))
		if len(h) >= 4 && geo.SimplePath(h) && strictlyInside(h, o.Rings[0]) {
			o.Rings = append(o.Rings, h)
		}
	} else if r0 >= 9 && Chance(t, 30, "sieve") {
		r, s := int64(r0)/2, int64(max(1, r0/8))
		for k := int64(I(t, 2, 9, "holes")); k > 0; k-- {
			x, y := c[0]+(k%3-1)*r, c[1]+(k/3%3-1)*r
			h := []geo.P{{x - s, y - s}, {x + s, y - s}, {x + s, y + s}, {x - s, y + s}, {x - s, y - s}}
			if k%4 == 0 {
				h = []geo.P{{x - s, y}, {x, y - s}, {x + s, y}, {x - s, y}}
			}
			if strictlyInside(h, o.Rings[0]) {
				o.Rings = append(o.Rings, h)
			}
		}
	}
	return o
}

func strictlyInside(h, shell []geo.P) bool {
	for _, p := range h {
		if geo.InRing(shell, p) != 1 {
			return false
		}
	}
	return !geo.PathPath(h, shell)
}

// Constraint draws one constraint object near the lines.
func Constraint(t *T, lines []tgt.Line) geo.Obj {
	c := Near(t, lines)
	switch I(t, 0, 3, "kind") {
	case 0, 1:
		return geo.Obj{Kind: geo.KPoint, Rings: [][]geo.P{{c}}}
	case 2:
		n := pick(t, "ln", 2, 2, 3, 4, 7, 20, 20, 60)
		s := pick(t, "ls", 2, 6, 20)
		ps := []geo.P{c}
		for len(ps) < n {
			d := pt(t, s)
			q := ps[len(ps)-1]
			if d == (geo.P{}) {
				d = geo.P{1, 0}
			}
			ps = append(ps, geo.P{q[0] + d[0], q[1] + d[1]})
		}
		return geo.Obj{Kind: geo.KLine, Rings: [][]geo.P{ps}}
	default:
		return Polygon(t, c)
	}
}

// Count draws a number of things: any up to 260, or one around a round number.
func Count(t *T) int {
	if Chance(t, 60, "any") {
		return I(t, 0, 260, "count")
	}
	return pick(t, "round", 8, 9, 16, 32, 64, 100, 128, 200, 250, 256, 500, 512, 1000, 1024) + I(t, -1, 1, "off")
}

// Constraints draws a set of constraints.
func Constraints(t *T, lines []tgt.Line, maxN int) []geo.Obj {
	n := I(t, 1, maxN, "nc")
	if maxN > 6 && Chance(t, 60, "few") {
		n = I(t, 1, 4, "nc2")
	}
	out := make([]geo.Obj, 0, n)
	if maxN > 6 && Chance(t, 15, "dust") {
		out = dust(t, lines)
		n = I(t, 1, 2, "nd")
	} else if maxN > 6 && Chance(t, 10, "aligned") {
		out = aligned(t, lines)
		n = I(t, 0, 2, "nd")
	}
	for i := 0; i < n; i++ {
		if i > 0 && Chance(t, 12, "twin") {
			out = append(out, twin(t, out[I(t, 0, len(out)-1, "of")]))
			continue
		}
		out = append(out, Constraint(t, lines))
	}
	return out
}

// dust draws many small objects that lie close to the lines but touch none.
func dust(t *T, lines []tgt.Line) []geo.Obj {
	var out []geo.Obj
	kinds := I(t, 0, 2, "dust kind")
	for k := I(t, 6, 40, "grains"); k > 0; k-- {
		p := Near(t, lines)
		o := geo.Obj{Kind: geo.KPoint, Rings: [][]geo.P{{p}}}
		if kinds > 0 && k%3 == 0 {
			o = geo.Obj{Kind: geo.KLine, Rings: [][]geo.P{{p, {p[0] + 1, p[1] + int64(k%2)}}}}
		}
		if kinds > 1 && k%4 == 0 {
			o = geo.Obj{Kind: geo.KPolygon, Rings: [][]geo.P{{p, {p[0] + 1, p[1]}, {p[0], p[1] + 1}, p}}}
		}
		free := true
		for i := range lines {
			free = free && !o.Meets(lines[i].Pts)
		}
		if free {
			out = append(out, o)
		}
	}
	return out
}

// aligned draws many points and segments on one horizontal or vertical line,
// so that boxes around them are degenerate.
func aligned(t *T, lines []tgt.Line) []geo.Obj {
	c := Near(t, lines)
	up := Chance(t, 50, "up")
	at := func(v int64) geo.P {
		if up {
			return geo.P{c[0], c[1] + v}
		}
		return geo.P{c[0] + v, c[1]}
	}
	step := int64(pick(t, "step", 1, 3, 10))
	v := int64(-I(t, 0, 30, "from")) * step
	segs := Chance(t, 40, "segs")
	var out []geo.Obj
	for k := I(t, 9, 40, "row"); k > 0; k-- {
		o := geo.Obj{Kind: geo.KPoint, Rings: [][]geo.P{{at(v)}}}
		if segs && k%3 == 0 {
			o = geo.Obj{Kind: geo.KLine, Rings: [][]geo.P{{at(v), at(v + step)}}}
		}
		out = append(out, o)
		v += step * int64(I(t, 1, 3, "d"))
	}
	return out
}

// twin makes another object with the bounding box of o: a mirror image, a
// diagonal, an outline, or the same again.
func twin(t *T, o geo.Obj) geo.Obj {
	lo, hi := o.Rings[0][0], o.Rings[0][0]
	for _, r := range o.Rings {
		for _, p := range r {
			lo = geo.P{min(lo[0], p[0]), min(lo[1], p[1])}
			hi = geo.P{max(hi[0], p[0]), max(hi[1], p[1])}
		}
	}
	if lo == hi {
		return o
	}
	flip := func(fx, fy bool) geo.Obj {
		q := geo.Obj{Kind: o.Kind}
		for _, r := range o.Rings {
			var ps []geo.P
			for _, p := range r {
				if fx {
					p[0] = lo[0] + hi[0] - p[0]
				}
				if fy {
					p[1] = lo[1] + hi[1] - p[1]
				}
				ps = append(ps, p)
			}
			q.Rings = append(q.Rings, ps)
		}
		return q
	}
	switch I(t, 0, 4, "twin kind") {
	case 0:
		return flip(true, false)
	case 1:
		return flip(false, true)
	case 2:
		return geo.Obj{Kind: geo.KLine, Rings: [][]geo.P{{lo, hi}}}
	case 3:
		return geo.Obj{Kind: geo.KLine, Rings: [][]geo.P{{{lo[0], hi[1]}, {hi[0], lo[1]}}}}
	default:
		if lo[0] == hi[0] || lo[1] == hi[1] {
			return flip(true, true)
		}
		return geo.Obj{Kind: geo.KPolygon, Rings: [][]geo.P{{lo, {hi[0], lo[1]}, hi, {lo[0], hi[1]}, lo}}}
	}
}

// Threshold draws a distance in grid units.
func Threshold(t *T) float64 {
	switch I(t, 0, 7, "thk") {
	case 0:
		return 0
	case 1, 2:
		return float64(I(t, 1, 8, "th4")) / 4
	case 3, 4, 5:
		return float64(I(t, 1, 24, "th2")) / 2
	case 6:
		return float64(I(t, 5, 60, "th1"))
	default:
		return 1e6
	}
}

// splits lists the offsets at which a line comes apart at a threshold of zero,
// largest first.
func splits(l []geo.P) []float64 {
	var vs []float64
	type span struct{ i, j int }
	todo := []span{{0, len(l) - 1}}
	for len(todo) > 0 && len(vs) < 400 {
		s := todo[0]
		todo = todo[1:]
		k, v := s.i, 0.0
		for m := s.i + 1; m < s.j; m++ {
			if d := geo.PtSegDist(l[s.i], l[s.j], l[m]); d > v {
				k, v = m, d
			}
		}
		if v > 0 {
			vs = append(vs, v)
			todo = append(todo, span{s.i, k}, span{k, s.j})
		}
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(vs)))
	return vs
}

// ThresholdFor draws a threshold that often falls between the offsets of the
// lines, so that some vertices are dropped and some kept.
func ThresholdFor(t *T, lines []tgt.Line) float64 {
	if !Chance(t, 70, "relative") {
		return Threshold(t)
	}
	l := lines[I(t, 0, len(lines)-1, "tl")].Pts
	if Chance(t, 50, "stretches") { // about so many stretches
		vs := splits(l)
		if len(vs) == 0 {
			return Threshold(t)
		}
		return math.Ceil(vs[min(I(t, 0, 14, "tk"), len(vs)-1)]*4) / 4
	}
	i := I(t, 0, len(l)-1, "ti")
	j := min(len(l)-1, i+I(t, 2, 30, "tj"))
	v := 0.0
	for k := i + 1; k < j; k++ {
		v = math.Max(v, geo.PtSegDist(l[i], l[j], l[k]))
	}
	v *= pick(t, "tf", 0.5, 1, 1, 2)
	return math.Ceil(v*4) / 4
}

// Times draws strictly increasing third components.
func Times(t *T, n int) []int64 {
	v := int64(I(t, 0, 1000, "t0"))
	out := make([]int64, n)
	uniform := Chance(t, 30, "tu")
	for i := range out {
		out[i] = v
		if uniform {
			v += 60
		} else {
			v += int64(I(t, 1, 20, "dt"))
		}
	}
	return out
}

// AnyTimes draws third components that need not increase: clocks that run
// backwards, jump, or stand still.
func AnyTimes(t *T, n int) []int64 {
	out := Times(t, n)
	switch I(t, 0, 3, "clock kind") {
	case 0: // backwards
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	case 1: // stands still at times
		for i := 1; i < n; i++ {
			if Chance(t, 50, "eq") {
				out[i] = out[i-1]
			}
		}
	case 2: // a few stamps are off
		for k := I(t, 1, 3, "off"); k > 0; k-- {
			out[I(t, 0, n-1, "oi")] = int64(I(t, -100, 2000, "ot"))
		}
	default: // anything
		for i := range out {
			out[i] = int64(I(t, -30, 30, "any"))
		}
	}
	return out
}

// Frame draws the affine frame (exact in float64).
func Frame(t *T, c *tgt.Case) {
	if len(c.Lines) > 1 && Chance(t, 40, "ids") {
		c.IDs = I(t, 1, 4, "idplan")
	}
	if Chance(t, 30, "turned") {
		c.Sym = I(t, 0, 7, "sym")
	}
	if len(c.Lines[0].T) > 0 && Chance(t, 40, "clock") {
		c.TScale = I(t, -10, 10, "tscale") // fractions of a second, milliseconds
		c.T0 = pick[int64](t, "t0", 0, 0, -5000, 1600000000)
	}
	switch I(t, 0, 5, "frame") {
	case 3:
		c.Off = geo.P{500000, 4649776}
	case 4:
		c.Scale = I(t, -10, 12, "scale")
	case 5:
		c.Scale = I(t, -4, 4, "scale")
		c.Off = pt(t, 100000)
	}
}

// Class draws the lines of a feature class.
func Class(t *T, maxLines, maxN int) ([]tgt.Line, string) {
	k := I(t, 2, maxLines, "nl")
	var lines []tgt.Line
	add := func(ps []geo.P) {
		ps = Dedup(ps)
		lines = append(lines, tgt.Line{Pts: ps})
	}
	kind := pick(t, "class", "network", "contours", "coverage", "random", "crossing")
	switch kind {
	case "network": // lines joining shared junctions through wiggles
		var nodes []geo.P
		for i := I(t, 2, 6, "nn"); i > 0; i-- {
			nodes = append(nodes, geo.P{int64(I(t, -60, 60, "nx")), int64(I(t, -60, 60, "ny"))})
		}
		for i := 0; i < k; i++ {
			var ps []geo.P
			a := nodes[I(t, 0, len(nodes)-1, "a")]
			ps = append(ps, a)
			for h := I(t, 1, 3, "hops"); h > 0; h-- {
				b := nodes[I(t, 0, len(nodes)-1, "b")]
				m := size(t, 0, maxN/2)
				j := pick(t, "wig", 1, 3, 8)
				for q := 1; q <= m; q++ {
					d := pt(t, j)
					ps = append(ps, geo.P{a[0] + (b[0]-a[0])*int64(q)/int64(m+1) + d[0], a[1] + (b[1]-a[1])*int64(q)/int64(m+1) + d[1]})
				}
				ps = append(ps, b)
				a = b
			}
			add(ps)
		}
	case "contours": // shifted copies
		base, _ := AnyPath(t, maxN)
		dx, dy := int64(I(t, -3, 3, "dx")), int64(I(t, 1, 6, "dy"))
		for i := 0; i < k; i++ {
			var ps []geo.P
			j := pick(t, "jit", 0, 0, 1, 2)
			for _, p := range base {
				d := geo.P{}
				if j > 0 {
					d = pt(t, j)
				}
				ps = append(ps, geo.P{p[0] + int64(i)*dx + d[0], p[1] + int64(i)*dy + d[1]})
			}
			if Chance(t, 30, "reverse") {
				for a, b := 0, len(ps)-1; a < b; a, b = a+1, b-1 {
					ps[a], ps[b] = ps[b], ps[a]
				}
			}
			add(ps)
		}
	case "coverage": // neighbours share stretches of vertices
		base, _ := AnyPath(t, maxN)
		base = Dedup(base)
		add(base)
		for i := 1; i < k; i++ {
			src := lines[I(t, 0, len(lines)-1, "src")].Pts
			a := I(t, 0, len(src)-2, "sa")
			b := min(len(src)-1, a+I(t, 1, 10, "sl"))
			var ps []geo.P
			p := src[a]
			for m := I(t, 0, 4, "pre"); m > 0; m-- {
				d := pt(t, 12)
				ps = append(ps, geo.P{p[0] + d[0], p[1] + d[1]})
			}
			ps = append(ps, src[a:b+1]...)
			p = src[b]
			for m := I(t, 0, 4, "post"); m > 0; m-- {
				d := pt(t, 12)
				p = geo.P{p[0] + d[0], p[1] + d[1]}
				ps = append(ps, p)
			}
			add(ps)
		}
	default: // independent paths, close together
		for i := 0; i < k; i++ {
			ps, _ := AnyPath(t, maxN)
			d := pt(t, 25)
			for q := range ps {
				ps[q] = geo.P{ps[q][0] + d[0], ps[q][1] + d[1]}
			}
			if kind == "crossing" {
				ps = MakeSimple(ps)
			}
			add(ps)
		}
	}
	return lines, kind
}
