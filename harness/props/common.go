package props

import (
	"fmt"

	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/geo"
	"verifharness/run"
	"verifharness/tgt"
)

type T = rapid.T

var none = run.Result{}

// pathLen draws the bound on the vertices of one line.
func pathLen(t *T) int {
	switch {
	case gen.Chance(t, 4, "xlong"):
		if gen.Chance(t, 3, "huge") {
			return 2500
		}
		return 400
	case gen.Chance(t, 12, "long"):
		return 120
	default:
		return 40
	}
}

// stutter repeats some vertices in place.
func stutter(t *T, ps []geo.P) []geo.P {
	var out []geo.P
	for _, p := range ps {
		out = append(out, p)
		for len(out) < 500 && gen.Chance(t, 12, "rep") {
			out = append(out, p)
		}
	}
	return out
}

// oneLine draws a line of any shape.
func oneLine(t *T) (tgt.Line, string) {
	ps, fam := gen.AnyPath(t, pathLen(t))
	if gen.Chance(t, 20, "simple") {
		ps = gen.MakeSimple(ps)
		fam += "/simple"
	}
	if gen.Chance(t, 6, "stutter") {
		ps = stutter(t, ps)
		fam += "/stutter"
	}
	l := tgt.Line{Pts: ps}
	if gen.Chance(t, 10, "3d") {
		l.T = gen.Times(t, len(ps))
	}
	return l, fam
}

// manyLines draws the lines of a feature class.
func manyLines(t *T) ([]tgt.Line, string) {
	if gen.Chance(t, 8, "big class") {
		if gen.Chance(t, 4, "huge class") {
			return gen.Class(t, 120, 6)
		}
		return gen.Class(t, 25, 12)
	}
	return gen.Class(t, 5, 22)
}

// base draws lines, threshold, scores and frame; fc is the percentage of
// feature-class cases.
func base(t *T, fc int) tgt.Case {
	var c tgt.Case
	if fc > 0 && gen.Chance(t, fc, "fc") {
		c.FC = true
		c.Lines, c.Fam = manyLines(t)
	} else {
		l, fam := oneLine(t)
		c.Lines, c.Fam = []tgt.Line{l}, fam
	}
	c.Opt.Threshold = gen.ThresholdFor(t, c.Lines)
	c.Sq = gen.Chance(t, 25, "sq")
	return c
}

// frame places the case; always last so that everything else is on the grid.
func frame(t *T, c *tgt.Case) { gen.Frame(t, c) }

// anyFrame is frame with very fine and very coarse units as well (degrees with
// seven decimals, planetary distances): offsets do not depend on the unit.
func anyFrame(t *T, c *tgt.Case) {
	frame(t, c)
	if c.Off == (geo.P{}) && gen.Chance(t, 20, "unit") {
		c.Scale = rapid.SampledFrom([]int{-24, -20, -16, -12, 12, 20}).Draw(t, "unit")
	}
}

// sed turns the case into a time-synchronised one; now and then the clock
// does not increase.
func sed(t *T, c *tgt.Case) {
	sedUp(t, c)
	if gen.Chance(t, 12, "odd clock") {
		for i := range c.Lines {
			c.Lines[i].T = gen.AnyTimes(t, len(c.Lines[i].Pts))
		}
	}
}

// sedUp is sed with times that increase.
func sedUp(t *T, c *tgt.Case) {
	c.SED = true
	for i := range c.Lines {
		c.Lines[i].T = gen.Times(t, len(c.Lines[i].Pts))
	}
}

// context draws the constraint objects.
func context(t *T, c *tgt.Case) {
	n := 10
	if gen.Chance(t, 10, "many constraints") {
		n = 45
		if gen.Chance(t, 4, "dense map") {
			n = 400
		}
	}
	c.Cons = gen.Constraints(t, c.Lines, n)
}

// others switches the remaining options on at random.
func others(t *T, c *tgt.Case) {
	if gen.Chance(t, 50, "plain") {
		return
	}
	o := &c.Opt
	o.Planar = o.Planar || gen.Chance(t, 30, "planar")
	o.NonPlanar = o.NonPlanar || gen.Chance(t, 30, "nonplanar")
	o.AvoidSelf = o.AvoidSelf || gen.Chance(t, 35, "avoid")
	o.Geom = o.Geom || gen.Chance(t, 35, "geom")
	o.Dist = o.Dist || gen.Chance(t, 35, "dist")
	o.Dir = o.Dir || gen.Chance(t, 35, "dir")
	if (o.Geom || o.Dist || o.Dir) && len(c.Cons) == 0 {
		context(t, c)
	}
	if o.Dist && o.MinDist == 0 {
		o.MinDist = gen.Threshold(t)
	}
	if o.AvoidSelf && o.Disp == 0 {
		o.Disp = gen.Threshold(t)
	}
}

// labels of a case for the evidence.
func labels(c *tgt.Case, kept [][]int) []string {
	ls := []string{"family:" + c.Fam}
	o := c.Opt
	for _, v := range []struct {
		b bool
		s string
	}{{c.FC, "feature class"}, {c.SED, "sed"}, {c.Sq, "square score"}, {o.Planar, "planar"}, {o.NonPlanar, "non planar"},
		{o.AvoidSelf, "avoid self"}, {o.Geom, "geom"}, {o.Dist, "dist"}, {o.Dir, "dir"}} {
		if v.b {
			ls = append(ls, v.s)
		}
	}
	n, k, gap := 0, 0, 0
	for i, l := range c.Lines {
		n += len(l.Pts)
		k += len(kept[i])
		for j := 1; j < len(kept[i]) && len(kept[i]) > 2; j++ {
			gap = max(gap, kept[i][j]-kept[i][j-1])
		}
	}
	if gap > 100 {
		ls = append(ls, "longest of several stretches:>100")
	} else if gap > 30 {
		ls = append(ls, "longest of several stretches:31-100")
	}
	switch {
	case n > 100:
		ls = append(ls, "size:>100")
	case n > 30:
		ls = append(ls, "size:31-100")
	default:
		ls = append(ls, "size:<=30")
	}
	switch {
	case k == n:
		ls = append(ls, "dropped:none")
	case k == 2*len(c.Lines):
		ls = append(ls, "dropped:all interior")
	default:
		ls = append(ls, "dropped:some")
	}
	return ls
}

func dropped(c *tgt.Case, kept [][]int) int {
	d := 0
	for i, l := range c.Lines {
		d += len(l.Pts) - len(kept[i])
	}
	return d
}

// shape runs the case and checks the part every property relies on.
func shape(c *tgt.Case) ([][]int, string) {
	kept := c.Run()
	for i := range kept {
		if m := badKept(kept[i], len(c.Lines[i].Pts)); m != "" {
			return kept, fmt.Sprintf("line %d: %s", i, m)
		}
	}
	return kept, ""
}

// perLine builds the check of a property stated line by line.
func perLine(f func(c *tgt.Case, i int, kept []int) string, nontrivial func(c *tgt.Case, kept [][]int) bool) func(*tgt.Case) run.Result {
	return func(c *tgt.Case) run.Result {
		kept, m := shape(c)
		if m != "" {
			return run.Result{Fail: m}
		}
		for i := range kept {
			if m := f(c, i, kept[i]); m != "" {
				return run.Failf("line %d: %s; kept %v", i, m, kept[i])
			}
		}
		return run.Result{NonTrivial: nontrivial(c, kept), Labels: labels(c, kept)}
	}
}
