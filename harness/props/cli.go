package props

import (
	"bytes"
	stdctx "context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/TopoSimplify/plugin/geometry"
	"github.com/intdxdt/geom"
	"pgregory.net/rapid"

	"verifharness/gen"
	"verifharness/geo"
	"verifharness/run"
	"verifharness/tgt"
)

// record is one line of the input file.
type record struct {
	Kind  string `json:"kind"` // line, multi, other, blank
	Parts int    `json:"parts,omitempty"`
	Feat  bool   `json:"feat,omitempty"`
	Props string `json:"props,omitempty"` // JSON text; "" leaves the member out
	Style int    `json:"style,omitempty"`
	Note  int    `json:"note,omitempty"` // length of a long text property
}

type cliCase struct {
	tgt.Case
	Recs  []record `json:"recs"`
	Type  string   `json:"type"`
	B64   bool     `json:"b64,omitempty"`
	Eol   string   `json:"eol"`
	Tail  string   `json:"tail,omitempty"`
	Cons2 []int    `json:"cstyle,omitempty"` // how the constraints are written
	Group int      `json:"group,omitempty"`  // how many of them a multi geometry or collection may hold, 3 if less
	Omit  bool     `json:"omit,omitempty"`   // leave default options out
	Pad   string   `json:"pad,omitempty"`    // white space around paths
	Stale int      `json:"stale,omitempty"`  // bytes already in the output file
	Note  int      `json:"note,omitempty"`   // length of a text in constraint features
	Bad   string   `json:"bad,omitempty"`
}

func num(v float64, style int) string {
	s := strconv.FormatFloat(v, 'g', -1, 64)
	if !strings.ContainsAny(s, ".e") {
		switch style % 3 {
		case 1:
			s += ".0"
		case 2:
			s += "e0"
		}
	}
	return s
}

func coordText(ps [][]float64, style int) string {
	sep := []string{",", ", ", " , "}[style/3%3]
	var out []string
	for _, p := range ps {
		var c []string
		for _, v := range p {
			c = append(c, num(v, style))
		}
		out = append(out, "["+strings.Join(c, sep)+"]")
	}
	return "[" + strings.Join(out, sep) + "]"
}

func geomText(typ, coords string, style int) string {
	if style%2 == 0 {
		return `{"type":"` + typ + `","coordinates":` + coords + `}`
	}
	return `{ "coordinates": ` + coords + `, "type": "` + typ + `" }`
}

func featText(g, props string, style int) string {
	ms := []string{`"type":"Feature"`, `"geometry":` + g}
	if props != "" {
		ms = append(ms, `"properties":`+props)
	}
	if style%5 == 0 {
		ms = append(ms, `"id":"a-`+strconv.Itoa(style)+`"`)
	}
	if style%7 == 0 {
		ms = append(ms, `"bbox":[0,0,1,1]`)
	}
	k := style % len(ms)
	ms = append(ms[k:len(ms):len(ms)], ms[:k]...)
	return "{" + strings.Join(ms, ", ") + "}"
}

// alone makes a collection of a single feature, now and then.
func alone(s string, style int) string {
	if style%13 == 5 {
		return `{"features":[` + s + `],"type":"FeatureCollection"}`
	}
	return s
}

// inputText writes the input file.
func (c *cliCase) inputText() string {
	var sb strings.Builder
	at := 0
	for i, r := range c.Recs {
		var s string
		switch r.Kind {
		case "blank":
			s = strings.Repeat(" ", r.Style%3)
		case "other":
			s = []string{geomText("Point", "[1,2]", r.Style), geomText("Polygon", "[[[0,0],[4,0],[4,4],[0,0]]]", r.Style),
				geomText("MultiPoint", "[[0,0],[4,5]]", r.Style), geomText("MultiLineString", "[]", r.Style)}[r.Style/10%4]
			if r.Feat {
				s = featText(s, r.Props, r.Style)
			}
		case "line":
			s = geomText("LineString", coordText(c.Coords(c.Lines[at]), r.Style), r.Style)
			at++
			if r.Feat {
				s = alone(featText(s, r.propsJSON(), r.Style), r.Style)
			}
		case "multi":
			var ps []string
			for k := 0; k < r.Parts; k++ {
				ps = append(ps, coordText(c.Coords(c.Lines[at]), r.Style))
				at++
			}
			s = geomText("MultiLineString", "["+strings.Join(ps, ",")+"]", r.Style)
			if r.Feat {
				s = alone(featText(s, r.propsJSON(), r.Style), r.Style)
			}
		}
		if r.Style%11 == 0 {
			s = " " + s + "\t"
		}
		sb.WriteString(s)
		if i < len(c.Recs)-1 {
			sb.WriteString(c.Eol)
		}
	}
	sb.WriteString(c.Tail)
	return sb.String()
}

func (c *cliCase) ringText(ps []geo.P, style int) string {
	return coordText(c.Coords(tgt.Line{Pts: ps}), style)
}

func (c *cliCase) objText(o *geo.Obj, style int) (string, string) {
	switch o.Kind {
	case geo.KPoint:
		s := c.ringText(o.Rings[0], style)
		return "Point", s[1 : len(s)-1]
	case geo.KLine:
		return "LineString", c.ringText(o.Rings[0], style)
	default:
		var rs []string
		for _, r := range o.Rings {
			rs = append(rs, c.ringText(r, style))
		}
		return "Polygon", "[" + strings.Join(rs, ",") + "]"
	}
}

// consText writes the constraints: each alone, grouped in a multi geometry or in
// a collection, as geometries or features.
func (c *cliCase) consText() string {
	var lines []string
	for i := 0; i < len(c.Cons); {
		st := c.Cons2[i%len(c.Cons2)]
		typ, co := c.objText(&c.Cons[i], st)
		switch st % 4 {
		case 0:
			lines = append(lines, geomText(typ, co, st))
			i++
		case 1:
			lines = append(lines, featText(geomText(typ, co, st), `{"n":"`+strings.Repeat("n", c.Note)+`"}`, st))
			i++
		case 2: // as many of the same kind as follow
			all := []string{co}
			i++
			for i < len(c.Cons) && c.Cons[i].Kind == c.Cons[i-1].Kind && len(all) < max(3, c.Group) {
				_, co = c.objText(&c.Cons[i], st)
				all = append(all, co)
				i++
			}
			g := geomText("Multi"+typ, "["+strings.Join(all, ",")+"]", st)
			if st%8 > 4 {
				g = featText(g, "null", st)
			}
			lines = append(lines, g)
		default:
			var fs []string
			for k := 0; k < max(3, c.Group) && i < len(c.Cons); k++ {
				typ, co = c.objText(&c.Cons[i], st)
				fs = append(fs, featText(geomText(typ, co, st), `{}`, st+k))
				i++
			}
			lines = append(lines, `{"type":"FeatureCollection","features":[`+strings.Join(fs, ",")+`]}`)
		}
		if st%6 == 0 {
			lines = append(lines, "")
		}
	}
	return strings.Join(lines, c.Eol) + c.Tail
}

func (c *cliCase) config(in, cons, out string) map[string]any {
	m := map[string]any{"input": c.Pad + in + c.Pad, "output": c.Pad + out + c.Pad, "simplification_type": c.Type}
	if cons != "" {
		m["constraints"] = c.Pad + cons + c.Pad
	} else if !c.Omit {
		m["constraints"] = c.Pad
	}
	o := c.Opts()
	for k, v := range map[string]any{
		"threshold": o.Threshold, "minimum_distance": o.MinDist, "non_planar_displacement": o.NonPlanarDisplacement,
		"is_feature_class": c.FC, "planar_self": o.PlanarSelf, "non_planar_self": o.NonPlanarSelf,
		"avoid_new_self_intersects": o.AvoidNewSelfIntersects, "geometric_relation": o.GeomRelation,
		"distance_relation": o.DistRelation, "homotopy_relation": o.DirRelation,
	} {
		if !c.Omit || v != any(false) && v != any(0.0) {
			m[k] = v
		}
	}
	return m
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(4)
	}
}

func put(name, text string) string {
	p := filepath.Join(run.Scratch(), name)
	must(os.WriteFile(p, []byte(text), 0o644))
	return p
}

// tool runs the command line tool built from the tree under test.
func tool(args ...string) (int, string) {
	bin := os.Getenv("VP_CLI")
	if bin == "" {
		must(errors.New("VP_CLI is not set"))
	}
	ctx, cancel := stdctx.WithTimeout(stdctx.Background(), 120*time.Second)
	defer cancel()
	run.Child.Add(1)
	defer run.Child.Add(-1)
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = run.Scratch()
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	var sb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &sb, &sb
	err := cmd.Run()
	if ctx.Err() != nil {
		return 999, "the tool did not end within 120 s\n" + sb.String()
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		if ee.ExitCode() < 0 { // killed from outside
			must(fmt.Errorf("the tool was ended: %v", err))
		}
		return ee.ExitCode(), clipText(sb.String())
	}
	must(err)
	return 0, clipText(sb.String())
}

func clipText(s string) string {
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// call runs the tool on the case and returns the text of the output file.
func (c *cliCase) call() (string, string) {
	in := put("in.json", c.inputText())
	cons := ""
	if len(c.Cons) > 0 {
		cons = put("cons.json", c.consText())
	}
	out := filepath.Join(run.Scratch(), "out.json")
	_ = os.Remove(out)
	if c.Stale > 0 {
		put("out.json", strings.Repeat("stale ", c.Stale))
	}
	cfg, err := json.Marshal(c.config(in, cons, out))
	must(err)
	code, msg := c.launch(cfg)
	if code != 0 {
		return "", fmt.Sprintf("the tool ended with code %d on a valid configuration: %s", code, msg)
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return "", "the tool left no output file: " + err.Error()
	}
	if string(mustRead(in)) != c.inputText() || cons != "" && string(mustRead(cons)) != c.consText() {
		return "", "the tool changed its input files"
	}
	return string(b), ""
}

func mustRead(p string) []byte {
	b, err := os.ReadFile(p)
	must(err)
	return b
}

func (c *cliCase) launch(cfg []byte) (int, string) {
	if c.B64 {
		return tool("-b", base64.StdEncoding.EncodeToString(cfg))
	}
	return tool("-f", put("cfg.json", string(cfg)))
}

type feature struct {
	Type       string         `json:"type"`
	Properties map[string]any `json:"properties"`
	Geometry   struct {
		Type        string          `json:"type"`
		Coordinates json.RawMessage `json:"coordinates"`
	} `json:"geometry"`
}

// decodeOutput reads an output file into features and their parts.
func decodeOutput(text string) ([]feature, [][][][]float64, string) {
	var fs []feature
	var parts [][][][]float64
	if text == "" {
		return nil, nil, ""
	}
	for i, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		var f feature
		if err := json.Unmarshal([]byte(l), &f); err != nil {
			return nil, nil, fmt.Sprintf("output line %d is not JSON: %v: %s", i, err, clipText(l))
		}
		if f.Type != "Feature" {
			return nil, nil, fmt.Sprintf("output line %d is a %q", i, f.Type)
		}
		var ps [][][]float64
		var err error
		switch f.Geometry.Type {
		case "LineString":
			var p [][]float64
			err = json.Unmarshal(f.Geometry.Coordinates, &p)
			ps = [][][]float64{p}
		case "MultiLineString":
			err = json.Unmarshal(f.Geometry.Coordinates, &ps)
		default:
			err = fmt.Errorf("geometry type %q", f.Geometry.Type)
		}
		if err != nil {
			return nil, nil, fmt.Sprintf("output line %d: %v", i, err)
		}
		fs = append(fs, f)
		parts = append(parts, ps)
	}
	return fs, parts, ""
}

// linear lists the records that hold lines, with their part counts.
func (c *cliCase) linear() (recs []record) {
	for _, r := range c.Recs {
		if r.Kind == "line" {
			r.Parts = 1
		}
		if r.Kind == "line" || r.Kind == "multi" {
			recs = append(recs, r)
		}
	}
	return
}

func (r *record) wantProps() map[string]any {
	want := map[string]any{}
	if p := r.propsJSON(); r.Feat && p != "" && p != "null" {
		must(json.Unmarshal([]byte(p), &want))
	}
	return want
}

// propsJSON is the properties member, with the long note when there is one.
func (r *record) propsJSON() string {
	if r.Note == 0 {
		return r.Props
	}
	note := `"note":"` + strings.Repeat("long text ", r.Note/10+1)[:r.Note] + `"`
	if len(r.Props) < 3 || r.Props == "null" {
		return "{" + note + "}"
	}
	return "{" + note + "," + r.Props[1:]
}

// structure checks everything but which interior vertices are kept.
func (c *cliCase) structure(text string) ([][]int, string) {
	fs, parts, m := decodeOutput(text)
	if m != "" {
		return nil, m
	}
	recs := c.linear()
	if len(fs) != len(recs) {
		return nil, fmt.Sprintf("%d features for %d linear records", len(fs), len(recs))
	}
	var kept [][]int
	at := 0
	for i, r := range recs {
		if len(parts[i]) != r.Parts || r.Parts > 1 && fs[i].Geometry.Type != "MultiLineString" || r.Kind == "line" && fs[i].Geometry.Type != "LineString" {
			return nil, fmt.Sprintf("record %d (%s, %d parts) became a %s of %d parts", i, r.Kind, r.Parts, fs[i].Geometry.Type, len(parts[i]))
		}
		if want := r.wantProps(); fs[i].Properties == nil || !reflect.DeepEqual(fs[i].Properties, want) && len(want)+len(fs[i].Properties) > 0 {
			return nil, fmt.Sprintf("properties of record %d are %v, were %v", i, fs[i].Properties, want)
		}
		for k, got := range parts[i] {
			l := c.Lines[at]
			at++
			ks, m := matchPart(c.Coords(l), got)
			if m != "" {
				return nil, fmt.Sprintf("record %d part %d: %s", i, k, m)
			}
			kept = append(kept, ks)
		}
	}
	return kept, ""
}

// matchPart finds got in the input part: same ends, in order, with the third
// component where some output vertex has one.
func matchPart(in, got [][]float64) ([]int, string) {
	if len(got) < 2 {
		return nil, fmt.Sprintf("%d vertices", len(got))
	}
	dim := len(got[0])
	anyZ := false
	for _, p := range got {
		if len(p) != dim || dim < 2 || dim > 3 {
			return nil, fmt.Sprintf("vertices of different dimension: %v", got)
		}
		anyZ = anyZ || dim == 3 && p[2] != 0
	}
	if dim == 3 && !anyZ {
		return nil, "a third component that is zero everywhere"
	}
	eq := func(a, b []float64) bool {
		if a[0] != b[0] || a[1] != b[1] {
			return false
		}
		za, zb := 0.0, 0.0
		if len(a) > 2 {
			za = a[2]
		}
		if len(b) > 2 {
			zb = b[2]
		}
		return za == zb
	}
	if !eq(got[0], in[0]) || !eq(got[len(got)-1], in[len(in)-1]) {
		return nil, fmt.Sprintf("end points are %v %v, were %v %v", got[0], got[len(got)-1], in[0], in[len(in)-1])
	}
	var ks []int
	k := 0
	for i, p := range got {
		for k < len(in) && !eq(in[k], p) {
			k++
		}
		if k == len(in) {
			return nil, fmt.Sprintf("vertex %d %v is not an input vertex in order", i, p)
		}
		ks = append(ks, k)
		k++
	}
	return ks, ""
}

func propsText(t *T) string {
	switch gen.I(t, 0, 4, "props") {
	case 0:
		return ""
	case 1:
		return "null"
	case 2:
		return "{}"
	}
	m := map[string]any{}
	for k := gen.I(t, 1, 4, "np"); k > 0; k-- {
		key := rapid.SampledFrom([]string{"name", "a b", "prop0", "", "é", "\"q\"", "type", "geometry", "id", "<x>&\u2028", "12"}).Draw(t, "key")
		m[key] = propValue(t, 2)
	}
	b, err := json.Marshal(m)
	must(err)
	return string(b)
}

func propValue(t *T, depth int) any {
	switch gen.I(t, 0, 8, "pv") {
	case 0:
		return nil
	case 1:
		return gen.Chance(t, 50, "pb")
	case 2:
		return gen.I(t, -1000000, 1000000, "pi")
	case 3:
		return float64(gen.I(t, -100000, 100000, "pf")) / 64 * math.Pow(10, float64(gen.I(t, -20, 20, "pe")))
	case 4:
		if depth > 0 {
			out := []any{}
			for k := gen.I(t, 0, 3, "pl"); k > 0; k-- {
				out = append(out, propValue(t, depth-1))
			}
			return out
		}
		return "deep"
	case 5:
		if depth > 0 {
			return map[string]any{"k": propValue(t, depth-1), "idx:9-pos:9": 1}
		}
		return ""
	default:
		return rapid.SampledFrom([]string{"", "Titus Islands", "null", "line\nbreak", "<b>&amp;</b>", "日本", "\u0000\u001f", "\\", "tab\t"}).Draw(t, "ps")
	}
}

// drawCLI draws a whole job.
func drawCLI(t *T) cliCase {
	var c cliCase
	c.Eol = rapid.SampledFrom([]string{"\n", "\n", "\r\n", "\n\n"}).Draw(t, "eol")
	c.Tail = rapid.SampledFrom([]string{"", "\n", "\n\n", "\r\n", " "}).Draw(t, "tail")
	sedType := gen.Chance(t, 25, "sed")
	class := gen.Chance(t, 35, "class")
	c.FC = class || gen.Chance(t, 20, "fc")
	var pool []tgt.Line
	if class {
		pool, c.Fam = gen.Class(t, 6, 16)
	}
	next := func() tgt.Line {
		if len(pool) > 0 {
			l := pool[0]
			pool = pool[1:]
			return l
		}
		m := 24
		if gen.Chance(t, 2, "long line") {
			m = 400
		}
		ps, fam := gen.AnyPath(t, m)
		if gen.Chance(t, 8, "stutter") {
			ps = stutter(t, ps)
			fam += "/stutter"
		}
		c.Fam = fam
		l := tgt.Line{Pts: ps}
		if gen.Chance(t, 30, "z") {
			l.T = make([]int64, len(ps))
			for i := range l.T {
				if gen.Chance(t, 40, "zv") {
					l.T[i] = int64(gen.I(t, -50, 50, "z"))
				}
			}
		}
		return l
	}
	for k := gen.I(t, 0, 6, "nr"); k > 0 || len(pool) > 0; k-- {
		r := record{Kind: "line", Style: gen.I(t, 0, 400, "style"), Feat: gen.Chance(t, 60, "feat")}
		switch gen.I(t, 0, 7, "kind") {
		case 0:
			r.Kind = "blank"
		case 1:
			r.Kind = "other"
		case 2, 3, 4:
			r.Kind = "multi"
			r.Parts = gen.I(t, 1, 4, "parts")
			if gen.Chance(t, 5, "many parts") {
				r.Parts = gen.I(t, 10, 13, "parts")
				if gen.Chance(t, 10, "hundreds") {
					r.Parts = gen.I(t, 100, 120, "parts")
				}
			}
		}
		if r.Feat {
			r.Props = propsText(t)
			if gen.Chance(t, 4, "note") {
				r.Note = []int{5000, 65000, 70000, 140000, 1200000}[gen.I(t, 0, 4, "note length")]
			}
		}
		n := 0
		if r.Kind == "line" {
			n = 1
		} else if r.Kind == "multi" {
			n = r.Parts
		}
		for ; n > 0; n-- {
			c.Lines = append(c.Lines, next())
		}
		c.Recs = append(c.Recs, r)
		if len(c.Recs) == 12 {
			break
		}
	}
	if gen.Chance(t, 4, "many records") {
		k := gen.I(t, 8, 110, "mr")
		if gen.Chance(t, 20, "thousands") {
			k = gen.I(t, 1000, 1100, "mr")
		}
		for ; k > 0; k-- {
			c.Lines = append(c.Lines, tgt.Line{Pts: []geo.P{{int64(k), 0}, {int64(k + 3), int64(k % 5)}, {int64(k + 9), 1}}})
			c.Recs = append(c.Recs, record{Kind: "line", Style: 2 * k})
		}
	}
	c.Omit = gen.Chance(t, 40, "omit")
	c.B64 = gen.Chance(t, 50, "b64")
	c.Pad = rapid.SampledFrom([]string{"", "", " ", "\t \n"}).Draw(t, "pad")
	c.Stale = gen.I(t, 0, 3, "stale") * 3000
	c.Type = rapid.SampledFrom([]string{"DP", "dp", "Dp", " DP ", "dp\n"}).Draw(t, "type")
	for i := gen.I(t, 1, 5, "cst"); i > 0; i-- {
		c.Cons2 = append(c.Cons2, gen.I(t, 0, 60, "cs"))
	}
	if len(c.Lines) > 0 {
		if sedType {
			sed(t, &c.Case)
			c.Type = rapid.SampledFrom([]string{"SED", "sed", "Sed", " sEd\t"}).Draw(t, "type2")
		}
		c.Opt.Threshold = gen.ThresholdFor(t, c.Lines)
		o := &c.Opt
		o.Planar, o.NonPlanar, o.AvoidSelf = gen.Chance(t, 40, "p"), gen.Chance(t, 40, "n"), gen.Chance(t, 40, "a")
		o.Geom, o.Dist, o.Dir = gen.Chance(t, 40, "g"), gen.Chance(t, 40, "d"), gen.Chance(t, 40, "h")
		if gen.Chance(t, 70, "constraints") {
			c.Cons = gen.Constraints(t, c.Lines, 8)
			if gen.Chance(t, 6, "big groups") {
				c.Group = gen.Count(t)
				for k := c.Group; k > 0 && len(c.Cons) < 130; k-- {
					c.Cons = append(c.Cons, c.Cons[k%len(c.Cons)])
				}
				sort.SliceStable(c.Cons, func(i, j int) bool { return c.Cons[i].Kind < c.Cons[j].Kind })
			}
			if gen.Chance(t, 4, "note") {
				c.Note = []int{5000, 65500, 140000}[gen.I(t, 0, 2, "note length")]
			}
		}
		if gen.Chance(t, 70, "md") {
			o.MinDist = gen.Threshold(t)
		}
		if gen.Chance(t, 70, "disp") {
			o.Disp = gen.Threshold(t)
		}
		anyFrame(t, &c.Case)
	}
	return c
}

func cliLabels(c *cliCase) []string {
	n := "records:" + strconv.Itoa(min(len(c.linear()), 5))
	return []string{n, fmt.Sprintf("class:%v", c.FC), "type:" + strings.ToLower(strings.TrimSpace(c.Type)), fmt.Sprintf("constraints:%v", len(c.Cons) > 0)}
}

func init() {
	run.Register(run.Prop{ID: "C30", Quick: 18000, Thorough: 150000,
		Rule: "runs of the built tool on input files of 0-120 records (geometries and features, single and multi lines, other geometries, blank lines, CRLF, odd spacing, nested properties, third components, stale output files) with every option at random; non-trivial when two or more linear records were written, one of them with several parts or properties"},
		drawCLI,
		func(c *cliCase) run.Result {
			text, m := c.call()
			if m != "" {
				return run.Result{Fail: m}
			}
			if _, m = c.structure(text); m != "" {
				return run.Result{Fail: m}
			}
			rich := false
			for _, r := range c.linear() {
				rich = rich || r.Parts > 1 || len(r.Props) > 4
			}
			return run.Result{NonTrivial: rich && len(c.linear()) > 1, Labels: cliLabels(c)}
		})

	run.Register(run.Prop{ID: "C31", Quick: 14000, Thorough: 150000,
		Rule: "runs of the built tool with every option at random, the configuration by file or base64, constraints as geometries, features, multi geometries or collections; the written vertices against a library run with the same options; non-trivial when vertices were dropped and some option or constraint changed the result"},
		drawCLI,
		func(c *cliCase) run.Result {
			text, m := c.call()
			if m != "" {
				return run.Result{Fail: m}
			}
			_, parts, m := decodeOutput(text)
			if m != "" {
				return run.Result{Fail: m}
			}
			want := c.Case.Run()
			at, lost := 0, 0
			for i := range parts {
				for k, got := range parts[i] {
					if at == len(want) {
						return run.Failf("more parts written than read")
					}
					in := c.Coords(c.Lines[at])
					if len(got) != len(want[at]) {
						return run.Failf("record %d part %d is written with %d vertices, the library keeps %v", i, k, len(got), want[at])
					}
					for j, p := range got {
						if q := in[want[at][j]]; p[0] != q[0] || p[1] != q[1] {
							return run.Failf("record %d part %d: vertex %d is %v, the library keeps %v", i, k, j, p, q)
						}
					}
					lost += len(in) - len(got)
					at++
				}
			}
			if at != len(want) {
				return run.Failf("%d parts written, %d read", at, len(want))
			}
			p := c.Case
			p.Opt = tgt.Options{Threshold: c.Opt.Threshold}
			p.Cons = nil
			return run.Result{NonTrivial: lost > 0 && !sameKept(p.Run(), want), Labels: cliLabels(c)}
		})

	run.Register(run.Prop{ID: "C32", Quick: 28000, Thorough: 100000,
		Rule:   "runs of the built tool with one thing wrong (flags, configuration text, paths, simplification type, a malformed line in a file) and an output file present before; non-trivial: every case",
		Assume: []string{"a malformed line is one that is not JSON or whose coordinates are no numbers; unknown GeoJSON types are skipped by design"}},
		func(t *T) cliCase {
			c := drawCLI(t)
			c.Pad = ""
			c.Bad = rapid.SampledFrom(badKinds).Draw(t, "bad")
			return c
		},
		checkBad)

	run.Register(run.Prop{ID: "C33", Quick: 110000, Thorough: 1500000,
		Rule: "files of lines and of constraints in every supported encoding (geometry, feature, multi geometry, collection; blank lines, CRLF, odd spacing, third components) read by the library's readers, against the geometries that were written; non-trivial when a multi geometry or collection and another record were read"},
		drawCLI,
		checkReaders)
}

var badKinds = []string{"no flags", "both flags", "config not json", "config text for number", "not base64", "no input", "input missing", "input is directory",
	"no output", "constraints missing", "unknown type", "empty type", "input not json", "input bad coordinates", "constraints not json", "constraints bad coordinates", "config missing", "input truncated"}

func checkBad(c *cliCase) run.Result {
	in, cons := put("in.json", c.inputText()), ""
	if len(c.Cons) > 0 {
		cons = put("cons.json", c.consText())
	}
	const old = "precious\n"
	out := put("out.json", old)
	gone := filepath.Join(run.Scratch(), "absent.json")
	cfg := c.config(in, cons, out)
	line := geomText("LineString", "[[0,0],[5,1],[9,0]]", 0)
	insert := func(text, bad string) string {
		if c.Stale == 0 || strings.TrimSpace(text) == "" {
			return bad + "\n" + text
		}
		return strings.TrimRight(text, " \r\n") + "\n" + bad + "\n"
	}
	var args []string
	raw := ""
	switch c.Bad {
	case "config text for number":
		cfg["threshold"] = "10"
	case "no input":
		delete(cfg, "input")
	case "input missing":
		cfg["input"] = gone
	case "input is directory":
		cfg["input"] = run.Scratch()
	case "no output":
		cfg["output"] = []string{"", "  ", "\t"}[c.Stale/3000%3]
	case "constraints missing":
		cfg["constraints"] = gone
	case "unknown type":
		cfg["simplification_type"] = []string{"DPX", "VW", "dp sed", "d p"}[c.Stale/3000%4]
	case "empty type":
		cfg["simplification_type"] = ""
	case "input not json":
		put("in.json", insert(c.inputText(), []string{"hello", "LINESTRING (0 0, 1 1)", line + "}", "[", `{"type"}`}[c.Stale/3000]))
	case "input truncated":
		put("in.json", insert(c.inputText(), line[:12+10*(c.Stale/3000)]))
	case "input bad coordinates":
		put("in.json", insert(c.inputText(), []string{geomText("LineString", `[["a","b"],[1,2]]`, 0), geomText("LineString", `"x"`, 0),
			featText(geomText("LineString", `[[{}],[1,2]]`, 0), "{}", 0), geomText("MultiLineString", `[[0,0],[1,1]]`, 0)}[c.Stale/3000]))
	case "constraints not json":
		cfg["constraints"] = put("cons.json", insert(c.consText(), []string{"hello", "POINT (1 1)", geomText("Point", "[1,2]", 0) + "]", "{"}[c.Stale/3000]))
	case "constraints bad coordinates":
		cfg["constraints"] = put("cons.json", insert(c.consText(), []string{geomText("Point", `["a","b"]`, 0), geomText("Polygon", `"x"`, 0),
			featText(geomText("Point", `{}`, 0), "{}", 0), geomText("MultiPolygon", `[[0,0],[1,1]]`, 0)}[c.Stale/3000]))
	}
	b, err := json.Marshal(cfg)
	must(err)
	enc := base64.StdEncoding.EncodeToString(b)
	switch c.Bad {
	case "no flags":
		args = []string{}
	case "both flags":
		args = []string{"-b", enc, "-f", put("cfg.json", string(b))}
	case "config not json":
		raw = string(b[:len(b)-1-c.Stale/3000])
	case "not base64":
		args = []string{"-b", []string{string(b), enc[1:] + "!", "****"}[c.Stale/3000%3]}
	case "config missing":
		args = []string{"-f", gone}
	}
	if args == nil {
		if raw == "" {
			raw = string(b)
		}
		if c.B64 {
			args = []string{"-b", base64.StdEncoding.EncodeToString([]byte(raw))}
		} else {
			args = []string{"-f", put("cfg.json", raw)}
		}
	}
	code, msg := tool(args...)
	if code == 0 || code == 999 {
		return run.Failf("%s: the tool ended with code %d: %s", c.Bad, code, msg)
	}
	if strings.TrimSpace(msg) == "" {
		return run.Failf("%s: the tool failed with code %d without a message", c.Bad, code)
	}
	if got := string(mustRead(out)); got != old {
		return run.Failf("%s: the tool failed with code %d and changed the output file: %q", c.Bad, code, clipText(got))
	}
	return run.Result{NonTrivial: true, Labels: []string{"bad:" + c.Bad}}
}

func samePoints(got geom.Coords, want [][]float64) string {
	ps := got.Points()
	if len(ps) != len(want) {
		return fmt.Sprintf("%d vertices, %d written", len(ps), len(want))
	}
	for i, p := range ps {
		z := 0.0
		if len(want[i]) > 2 {
			z = want[i][2]
		}
		if p[0] != want[i][0] || p[1] != want[i][1] || p[2] != z {
			return fmt.Sprintf("vertex %d is %v, %v was written", i, p, want[i])
		}
	}
	return ""
}

func checkReaders(c *cliCase) run.Result {
	plns := geometry.ReadInputPolylines(put("in.json", c.inputText()))
	if len(plns) != len(c.Lines) {
		return run.Failf("%d lines read, %d written", len(plns), len(c.Lines))
	}
	at, multi := 0, false
	ids := map[string]bool{}
	for i, r := range c.linear() {
		for k := 0; k < r.Parts; k++ {
			if m := samePoints(plns[at].Coordinates, c.Coords(c.Lines[at])); m != "" {
				return run.Failf("record %d part %d: %s", i, k, m)
			}
			got, want := map[string]any{}, r.wantProps()
			if err := json.Unmarshal([]byte(plns[at].Meta), &got); err != nil || len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
				return run.Failf("record %d part %d: properties are %s, written %v", i, k, plns[at].Meta, want)
			}
			if ids[plns[at].Id] {
				return run.Failf("record %d part %d: the name %q is taken", i, k, plns[at].Id)
			}
			ids[plns[at].Id] = true
			at++
		}
		multi = multi || r.Parts > 1
	}
	if len(c.Cons) == 0 {
		return run.Result{NonTrivial: multi && len(c.linear()) > 1, Labels: cliLabels(c)}
	}
	cons := geometry.ReadInputConstraints(put("cons.json", c.consText()))
	if len(cons) != len(c.Cons) {
		return run.Failf("%d constraints read, %d written", len(cons), len(c.Cons))
	}
	for i := range cons {
		o := &c.Cons[i]
		m := "wrong kind"
		switch g := cons[i].Geometry().(type) {
		case geom.Point:
			if o.Kind == geo.KPoint {
				x, y := c.XY(o.Rings[0][0])
				if m = ""; g[0] != x || g[1] != y {
					m = fmt.Sprintf("point %v, written %v %v", g, x, y)
				}
			}
		case *geom.LineString:
			if o.Kind == geo.KLine {
				m = samePoints(g.Coordinates, c.Coords(tgt.Line{Pts: o.Rings[0]}))
			}
		case *geom.Polygon:
			if o.Kind == geo.KPolygon {
				cs := g.Coordinates()
				if m = ""; len(cs) != len(o.Rings) {
					m = fmt.Sprintf("%d rings, written %d", len(cs), len(o.Rings))
				}
				for k := 0; m == "" && k < len(cs); k++ {
					m = samePoints(cs[k], c.Coords(tgt.Line{Pts: o.Rings[k]}))
				}
			}
		}
		if m != "" {
			return run.Failf("constraint %d (%s): %s (%T)", i, o.Kind, m, cons[i].Geometry())
		}
	}
	return run.Result{NonTrivial: len(c.Cons) > 1 && len(c.linear()) > 1, Labels: cliLabels(c)}
}
