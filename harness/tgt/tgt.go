// Package tgt drives the code under test through its exported API.
package tgt

import (
	"math"
	"sort"

	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"

	"verifharness/geo"
)

// Options of a run, in grid units.
type Options struct {
	Threshold float64 `json:"threshold"`
	MinDist   float64 `json:"min_dist,omitempty"`
	Disp      float64 `json:"displacement,omitempty"`
	Planar    bool    `json:"planar,omitempty"`
	NonPlanar bool    `json:"non_planar,omitempty"`
	AvoidSelf bool    `json:"avoid_self,omitempty"`
	Geom      bool    `json:"geom,omitempty"`
	Dist      bool    `json:"dist,omitempty"`
	Dir       bool    `json:"dir,omitempty"`
}

// Case is one simplification job on the integer grid; the coordinates the code
// sees are (grid + Off) * 2^Scale, which is exact in float64.
type Case struct {
	Lines []Line    `json:"lines"`
	Cons  []geo.Obj `json:"cons,omitempty"`
	Opt   Options   `json:"opt"`
	FC    bool      `json:"fc,omitempty"`
	SED   bool      `json:"sed,omitempty"`
	Sq    bool      `json:"sq,omitempty"`
	Scale int       `json:"scale,omitempty"`
	Off   geo.P     `json:"off"`
	Fam   string    `json:"fam,omitempty"`

	// Sym is one of the 8 symmetries of the square: bit 0 mirrors x, bit 1
	// mirrors y, bit 2 swaps the axes (all exact).
	Sym int `json:"sym,omitempty"`

	// IDs picks how instance ids relate to positions: 0 in order, 1 reversed,
	// 2 rotated, 3 with gaps, 4 offset by a lot.
	IDs int `json:"ids,omitempty"`

	// The third components are (T + T0) * 2^TScale.
	TScale int   `json:"tscale,omitempty"`
	T0     int64 `json:"t0,omitempty"`

	// wrap, when set, is put around the score functions.
	wrap func(lnr.ScoreFn) lnr.ScoreFn
}

// Wrap installs a decorator of the score functions.
func (c *Case) Wrap(f func(lnr.ScoreFn) lnr.ScoreFn) { c.wrap = f }

// Line is one input polyline; T (optional) are the third components.
type Line struct {
	Pts []geo.P `json:"pts"`
	T   []int64 `json:"t,omitempty"`
}

func (c *Case) k() float64 { return math.Ldexp(1, c.Scale) }

func (c *Case) XY(p geo.P) (float64, float64) {
	k := c.k()
	x, y := p[0], p[1]
	if c.Sym&1 != 0 {
		x = -x
	}
	if c.Sym&2 != 0 {
		y = -y
	}
	if c.Sym&4 != 0 {
		x, y = y, x
	}
	return float64(x+c.Off[0]) * k, float64(y+c.Off[1]) * k
}

func (c *Case) Coords(l Line) [][]float64 {
	out := make([][]float64, len(l.Pts))
	for i, p := range l.Pts {
		x, y := c.XY(p)
		if len(l.T) > 0 {
			out[i] = []float64{x, y, math.Ldexp(float64(l.T[i]+c.T0), c.TScale)}
		} else {
			out[i] = []float64{x, y}
		}
	}
	return out
}

func (c *Case) ring(ps []geo.P) [][]float64 {
	return c.Coords(Line{Pts: ps})
}

// Opts for the library.
func (c *Case) Opts() *opts.Opts {
	k := c.k()
	o := c.Opt
	return &opts.Opts{
		Threshold: o.Threshold * k, MinDist: o.MinDist * k, NonPlanarDisplacement: o.Disp * k,
		PlanarSelf: o.Planar, NonPlanarSelf: o.NonPlanar, AvoidNewSelfIntersects: o.AvoidSelf,
		GeomRelation: o.Geom, DistRelation: o.Dist, DirRelation: o.Dir,
	}
}

// Constraints for the library.
func (c *Case) Constraints() []geometry.IGeometry {
	out := make([]geometry.IGeometry, 0, len(c.Cons))
	for i := range c.Cons {
		o := &c.Cons[i]
		switch o.Kind {
		case geo.KPoint:
			x, y := c.XY(o.Rings[0][0])
			out = append(out, geometry.CreatePoint("c", []float64{x, y}, ""))
		case geo.KLine:
			out = append(out, geometry.CreatePolyline("c", geom.AsCoordinates(c.ring(o.Rings[0])), ""))
		default:
			var rs []geom.Coords
			for _, r := range o.Rings {
				rs = append(rs, geom.AsCoordinates(c.ring(r)))
			}
			out = append(out, geometry.CreatePolygon("c", rs, ""))
		}
	}
	return out
}

// ScoreFns picks the score functions of the case.
func (c *Case) ScoreFns() (lnr.ScoreFn, []lnr.ScoreFn) {
	if c.SED {
		if c.Sq {
			return offset.MaxSEDOffset, []lnr.ScoreFn{offset.SqureMaxSEDOffset}
		}
		return offset.MaxSEDOffset, nil
	}
	if c.Sq {
		return offset.MaxOffset, []lnr.ScoreFn{offset.SquareMaxOffset}
	}
	return offset.MaxOffset, nil
}

// Forest builds the instances of a case.
func (c *Case) Forest(id *iter.Igen, o *opts.Opts) []*constdp.ConstDP {
	return c.ForestOn(id, o, c.Polylines(), c.Constraints())
}

// Polylines are the input lines for the library.
func (c *Case) Polylines() []*geometry.Polyline {
	var out []*geometry.Polyline
	for _, l := range c.Lines {
		out = append(out, geometry.CreatePolyline("l", geom.AsCoordinates(c.Coords(l)), ""))
	}
	return out
}

// ForestOn builds the instances of the case on given inputs.
func (c *Case) ForestOn(id *iter.Igen, o *opts.Opts, plns []*geometry.Polyline, cons []geometry.IGeometry) []*constdp.ConstDP {
	score, sq := c.ScoreFns()
	if c.wrap != nil {
		score = c.wrap(score)
		for i := range sq {
			sq[i] = c.wrap(sq[i])
		}
	}
	ids := c.ids(id)
	forest := make([]*constdp.ConstDP, 0, len(plns))
	for i := range plns {
		forest = append(forest, constdp.NewConstDP(ids[i], plns[i], cons, o, score, sq...))
	}
	return forest
}

// ids draws the instance ids: all from the generator, all different.
func (c *Case) ids(id *iter.Igen) []int {
	n := len(c.Lines)
	ids := make([]int, n)
	if c.IDs == 4 {
		for i := 0; i < 50; i++ {
			id.Next()
		}
	}
	for i := range ids {
		if c.IDs == 3 {
			id.Next()
			if i%2 == 0 {
				id.Next()
			}
		}
		ids[i] = id.Next()
	}
	switch c.IDs {
	case 1:
		for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
			ids[a], ids[b] = ids[b], ids[a]
		}
	case 2:
		ids = append(ids[1:], ids[0])
	}
	return ids
}

// Kept reads the sorted kept indices of an instance.
func Kept(s *constdp.ConstDP) []int {
	var out []int
	for _, v := range s.SimpleSet.Values() {
		out = append(out, v.(int))
	}
	sort.Ints(out)
	return out
}

// Run simplifies the case and returns the kept vertex indices of every line.
func (c *Case) Run() [][]int {
	id := iter.NewIgen()
	o := c.Opts()
	forest := c.Forest(id, o)
	if c.FC {
		constdp.SimplifyFeatureClass(id, forest, o)
	} else {
		constdp.SimplifyInstances(id, forest, map[int][]int{})
	}
	out := make([][]int, len(forest))
	for i, f := range forest {
		out[i] = Kept(f)
	}
	return out
}

// RunJunctions simplifies the lines as instances, with junction vertices given
// for the first line.
func (c *Case) RunJunctions(junctions []int) [][]int {
	id := iter.NewIgen()
	o := c.Opts()
	forest := c.Forest(id, o)
	m := map[int][]int{}
	if len(junctions) > 0 {
		m[forest[0].Id()] = append([]int{}, junctions...)
	}
	constdp.SimplifyInstances(id, forest, m)
	out := make([][]int, len(forest))
	for i, f := range forest {
		out[i] = Kept(f)
	}
	return out
}
