package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/TopoSimplify/plugin/geometry"
	"github.com/intdxdt/geom"
)

func init() {
	recorders["reader"] = recReader
	recorders["cli"] = recCli
}

// numbers used as coordinates; records hold their positions in this list
var pool = []string{"0", "1", "2", "-1", "0.5", "-0.25", "102.0", "125.6", "10.1", "30", "1e3", "2819444.40306664",
	"4502116.1380905", "1370045820.0", "1e-7", "-179.999999999", "1e20", "-3", "7", "0.1", "0.2", "0.30000000000000004",
	"40", "35.25", "89.9", "12345678901", "5e-324", "1.7976931348623157e308"}
var poolVal = func() []float64 {
	out := make([]float64, len(pool))
	for i := range pool {
		out[i], _ = strconv.ParseFloat(pool[i], 64)
	}
	return out
}()

func poolIdx(v float64) int {
	for i := range poolVal {
		if poolVal[i] == v {
			return i
		}
	}
	return -1
}

// properties used; records hold positions: 0 is null
var props = []string{"null", `{}`, `{"a":1}`, `{"prop0":"value0","prop1":0.0}`, `{"n":{"x":[1,2,{"y":null}]},"s":"q\"uo\\te"}`,
	`{"name":"Titus Islands ü ∆","t":true}`, `{"id":"idx:9-pos:9"}`, `{"v":1.5e10,"w":-0.001}`,
	`{"long":"` + strings.Repeat("0123456789", 14000) + `"}`} // the last one is long and rare

func rndProp(r *rand.Rand) int {
	if oneIn(r, 100) {
		return len(props) - 1
	}
	return r.Intn(len(props) - 1)
}

func propIdx(s string) int {
	var v interface{}
	if json.Unmarshal([]byte(s), &v) != nil {
		return -1
	}
	for i := range props {
		var w interface{}
		json.Unmarshal([]byte(props[i]), &w)
		if reflect.DeepEqual(v, w) {
			return i
		}
	}
	return -1
}

// Geo is a geometry of a file: its parts are lists of rings, lines or points
type Geo struct {
	Type  string    `json:"type"`
	Parts [][][]Pos `json:"parts"` // part, ring, position
}
type Pos []int // positions in pool

// Line of a file: what it holds
type FLine struct {
	Wrap  string `json:"wrap"` // geometry | Feature | FeatureCollection | blank
	Geos  []Geo  `json:"geos"`
	Props []int  `json:"props"`
}
type ReadLine struct {
	Idx   int   `json:"idx"`
	Pos   int   `json:"pos"`
	Prop  int   `json:"prop"`
	Coord []Pos `json:"coords"`
}
type ReadCon struct {
	Type  string  `json:"type"`
	Idx   int     `json:"idx"`
	Pos   int     `json:"pos"`
	Rings [][]Pos `json:"rings"`
}
type ReaderRec struct {
	Kind  string     `json:"kind"`
	Idx   int        `json:"idx"`
	File  []FLine    `json:"file"`
	Lines []ReadLine `json:"lines"`
	Cons  []ReadCon  `json:"cons"`
}

func rndPos(r *rand.Rand, dim int) Pos {
	p := Pos{}
	for len(p) < dim {
		p = append(p, r.Intn(len(pool)-2))
	}
	return p
}
func rndPath(r *rand.Rand, n, dim int) []Pos {
	var out []Pos
	for len(out) < n {
		p := rndPos(r, dim)
		if len(out) > 0 && reflect.DeepEqual(out[len(out)-1], p) {
			continue
		}
		out = append(out, p)
	}
	return out
}

// a ring: a rectangle or a triangle; nested is a hole inside the unit square 1..40 of some shells
func rndRing(r *rand.Rand, dim int) []Pos {
	xs := [][]int{{1, 9}, {2, 22}, {0, 6}, {3, 10}, {17, 18}}
	a, b := xs[r.Intn(len(xs))], xs[r.Intn(len(xs))]
	mk := func(x, y int) Pos {
		p := Pos{x, y}
		for len(p) < dim {
			p = append(p, r.Intn(5))
		}
		return p
	}
	ring := []Pos{mk(a[0], b[0]), mk(a[1], b[0]), mk(a[1], b[1]), mk(a[0], b[1])}
	if oneIn(r, 3) {
		ring = ring[:3]
	}
	return append(ring, append(Pos{}, ring[0]...))
}

// geometries that are read as nothing: a feature may have none
var other = map[string]string{"none": "null", "GeometryCollection": `{"type":"GeometryCollection","geometries":[{"type":"Point","coordinates":[1,2]}]}`,
	"MultiLineString0": `{"type":"MultiLineString","coordinates":[]}`}

func anyType(r *rand.Rand, wrap string) string {
	if oneIn(r, 8) {
		if wrap == "geometry" || oneIn(r, 3) {
			return []string{"GeometryCollection", "MultiLineString0"}[r.Intn(2)]
		}
		return "none"
	}
	return gtypes[r.Intn(len(gtypes))]
}

var gtypes = []string{"Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon"}

func rndGeo(r *rand.Rand, typ string) Geo {
	dim := 2 + r.Intn(2)
	g := Geo{Type: typ, Parts: [][][]Pos{}}
	if other[typ] != "" {
		return g
	}
	n := 1
	if strings.HasPrefix(typ, "Multi") {
		n = 1 + r.Intn(4)
	}
	for ; n > 0; n-- {
		switch strings.TrimPrefix(typ, "Multi") {
		case "Point":
			g.Parts = append(g.Parts, [][]Pos{{rndPos(r, dim)}})
		case "LineString":
			k := 2 + r.Intn(5)
			if oneIn(r, 400) {
				k = 1000 + r.Intn(6000)
			}
			g.Parts = append(g.Parts, [][]Pos{rndPath(r, k, dim)})
		default:
			rings := [][]Pos{rndRing(r, dim)}
			for oneIn(r, 3) {
				rings = append(rings, rndRing(r, dim))
			}
			g.Parts = append(g.Parts, rings)
		}
	}
	return g
}

func posText(p Pos) string {
	var s []string
	for _, i := range p {
		s = append(s, pool[i])
	}
	return "[" + strings.Join(s, ", ") + "]"
}
func pathText(ps []Pos) string {
	var s []string
	for _, p := range ps {
		s = append(s, posText(p))
	}
	return "[" + strings.Join(s, ",") + "]"
}
func ringsText(rs [][]Pos) string {
	var s []string
	for _, p := range rs {
		s = append(s, pathText(p))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func (g Geo) text() string {
	var s []string
	var c string
	if other[g.Type] != "" {
		return other[g.Type]
	}
	for _, part := range g.Parts {
		switch strings.TrimPrefix(g.Type, "Multi") {
		case "Point":
			s = append(s, posText(part[0][0]))
		case "LineString":
			s = append(s, pathText(part[0]))
		default:
			s = append(s, ringsText(part))
		}
	}
	c = s[0]
	if strings.HasPrefix(g.Type, "Multi") {
		c = "[" + strings.Join(s, ",") + "]"
	}
	return fmt.Sprintf(`{"type": "%s", "coordinates": %s}`, g.Type, c)
}

func feature(g Geo, prop int) string {
	if g.Type == "none" && prop%2 == 1 {
		return fmt.Sprintf(`{"type":"Feature", "properties": %s}`, props[prop])
	}
	return fmt.Sprintf(`{"type":"Feature", "geometry": %s, "properties": %s}`, g.text(), props[prop])
}

func (l FLine) text(r *rand.Rand) string {
	switch l.Wrap {
	case "blank":
		return strings.Repeat(" ", r.Intn(3)) + []string{"", "\t", "\r"}[r.Intn(3)]
	case "geometry":
		return pad(r, l.Geos[0].text())
	case "Feature":
		return pad(r, feature(l.Geos[0], l.Props[0]))
	}
	var fs []string
	for i := range l.Geos {
		fs = append(fs, feature(l.Geos[i], l.Props[i]))
	}
	return pad(r, fmt.Sprintf(`{"type":"FeatureCollection","features":[%s]}`, strings.Join(fs, ",")))
}

func pad(r *rand.Rand, s string) string {
	if oneIn(r, 3) {
		s = strings.Repeat(" ", r.Intn(3)) + s + []string{" ", "\t", "\r", "  \r"}[r.Intn(4)]
	}
	return s
}

func fileText(r *rand.Rand, ls []FLine) string {
	var s []string
	for _, l := range ls {
		s = append(s, l.text(r))
	}
	t := strings.Join(s, "\n")
	if flip(r) {
		t += "\n"
	}
	if oneIn(r, 3) {
		t = "\n \n" + t + "\n\n  "
	}
	return t
}

var nums = regexp.MustCompile("[0-9]+")

func idPos(id string) (int, int) {
	v := nums.FindAllString(id, -1)
	if len(v) != 2 {
		return -1, -1
	}
	return atoi(v[0]), atoi(v[1])
}

func poolPath(cs geom.Coords) []Pos {
	out := make([]Pos, 0, cs.Len())
	for i := 0; i < cs.Len(); i++ {
		p := cs.Pt(i)
		out = append(out, Pos{poolIdx(p[0]), poolIdx(p[1]), poolIdx(p[2])})
	}
	return out
}

func scratchFile(text string) (string, func()) {
	dir, err := os.MkdirTemp("", "vp_f_")
	if err != nil {
		fatal(err)
	}
	f := filepath.Join(dir, "in.json")
	if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
		fatal(err)
	}
	return f, func() { os.RemoveAll(dir) }
}

func recReader(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("reader", seed, idx)
	rec := &ReaderRec{Kind: "reader", Idx: idx, File: []FLine{}, Lines: []ReadLine{}, Cons: []ReadCon{}}
	k := r.Intn(7)
	if oneIn(r, 60) {
		k = 60 + r.Intn(200) // a long file
	}
	for ; k >= 0; k-- {
		l := FLine{Wrap: []string{"geometry", "Feature", "Feature", "FeatureCollection", "blank"}[r.Intn(5)], Geos: []Geo{}, Props: []int{}}
		n := 1
		if l.Wrap == "FeatureCollection" {
			n = r.Intn(4)
		} else if l.Wrap == "blank" {
			n = 0
		}
		for ; n > 0; n-- {
			l.Geos = append(l.Geos, rndGeo(r, anyType(r, l.Wrap)))
			p := 0
			if l.Wrap != "geometry" {
				p = rndProp(r)
			}
			l.Props = append(l.Props, p)
		}
		rec.File = append(rec.File, l)
	}
	f, done := scratchFile(fileText(r, rec.File))
	defer done()
	for _, p := range geometry.ReadInputPolylines(f) {
		i, j := idPos(p.Id)
		rec.Lines = append(rec.Lines, ReadLine{i, j, propIdx(p.Meta), poolPath(p.Coordinates)})
	}
	for _, g := range geometry.ReadInputConstraints(f) {
		c := ReadCon{Type: "unknown", Rings: [][]Pos{}}
		var id string
		switch o := g.(type) {
		case geometry.Point:
			c.Type, id = "Point", o.Id
			c.Rings = [][]Pos{{{poolIdx(o.G[0]), poolIdx(o.G[1]), poolIdx(o.G[2])}}}
		case *geometry.Polyline:
			c.Type, id = "LineString", o.Id
			c.Rings = [][]Pos{poolPath(o.Coordinates)}
		case geometry.Polygon:
			c.Type, id = "Polygon", o.Id
			c.Rings = append(c.Rings, poolPath(o.G.Shell.Coordinates))
			for _, h := range o.G.Holes {
				c.Rings = append(c.Rings, poolPath(h.Coordinates))
			}
		}
		c.Idx, c.Pos = idPos(id)
		rec.Cons = append(rec.Cons, c)
	}
	return rec, len(rec.Lines) + len(rec.Cons), nil
}

// ------------------------------------------------- the command line tool
type CliLine struct {
	Type  string `json:"type"` // a type that is not linear is skipped
	Lines []int  `json:"lines"`
	Wrap  string `json:"wrap"`
	Props int    `json:"props"`
	Dim   int    `json:"dim"`
	blank bool
}
type CliFeat struct {
	Kind  string       `json:"kind"`
	Type  string       `json:"type"`
	Props int          `json:"props"`
	Parts [][][3]int64 `json:"parts"` // grid coordinates
	Times bool         `json:"times"`
}
type CliRun struct {
	How   string    `json:"how"` // how the configuration was passed
	Exit  int       `json:"exit"`
	Wrote bool      `json:"wrote"`
	Feats []CliFeat `json:"feats"`
}
type CliRec struct {
	*Case
	Kind  string    `json:"kind"`
	Input []CliLine `json:"input"`
	Lib   [][]R     `json:"lib"` // what the library gives
	Runs  []CliRun  `json:"runs"`
	Bad   []CliRun  `json:"bad"` // calls that must be refused
}

// elevations or times far from zero, with fractions
var bigTimes bool

func zOut(t int64) float64 {
	if bigTimes {
		return float64(t)*0.125 + 1370045820
	}
	return float64(t)
}
func zIn(v float64) int64 {
	if bigTimes {
		v = (v - 1370045820) * 8
	}
	if v != float64(int64(v)) {
		return -999999
	}
	return int64(v)
}

func num(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }

func (c *Case) lineText(l, dim int) string {
	var s []string
	for _, p := range c.Lines[l] {
		t := "[" + num(c.x(p[0])) + ", " + num(c.y(p[1]))
		if dim == 3 {
			t += ", " + num(zOut(p[2]))
		}
		s = append(s, t+"]")
	}
	return "[" + strings.Join(s, ",") + "]"
}

func (c *Case) conText(k *Con) string {
	pt := func(p P) string { return "[" + num(c.x(p[0])) + "," + num(c.y(p[1])) + "]" }
	ring := func(r []P) string {
		var s []string
		for _, p := range r {
			s = append(s, pt(p))
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	switch k.Type {
	case "point":
		return `{"type":"Point","coordinates":` + pt(k.Parts[0][0]) + `}`
	case "line":
		return `{"type":"LineString","coordinates":` + ring(k.Parts[0]) + `}`
	}
	var s []string
	for _, r := range k.Parts {
		s = append(s, ring(r))
	}
	return `{"type":"Polygon","coordinates":[` + strings.Join(s, ",") + `]}`
}

func recCli(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("cli", seed, idx)
	fam := []string{"mix", "fc", "fcj", "con", "self", "agg"}[r.Intn(6)]
	c := families[fam](r).nonNil("cli", seed, idx)
	if len(c.Lines) == 0 {
		c = families["agg"](r).nonNil("cli", seed, idx)
	}
	if oneIn(r, 12) {
		c = families["crowd"](r).nonNil("cli", seed, idx)
	}
	if oneIn(r, 3) {
		for k := r.Intn(8); k > 0; k-- {
			c.setLines(r, anyLine(r, 2+r.Intn(10), 20))
		}
	}
	many := oneIn(r, 8) // a line of many parts
	if many {
		for k := 11 + r.Intn(12); k > 0; k-- {
			c.setLines(r, anyLine(r, 2+r.Intn(4), 20))
		}
	}
	c.Sq = false
	if oneIn(r, 25) {
		c.Lines = [][][3]int64{}
	}
	if oneIn(r, 3) { // many decimals
		c.Sc, c.Tx, c.Ty = -10-r.Intn(20), r.Int63n(400)-200, r.Int63n(400)-200
	}
	bigTimes = oneIn(r, 3)
	rec := &CliRec{Case: c, Kind: "cli", Runs: []CliRun{}, Bad: []CliRun{}, Input: []CliLine{}}
	// how the lines are spread over features
	var text []string
	at := 0
	for at < len(c.Lines) || oneIn(r, 3) {
		l := CliLine{Type: "LineString", Dim: 3, Lines: []int{}, Wrap: []string{"geometry", "Feature"}[r.Intn(2)]}
		if c.Mode == "dp" && oneIn(r, 3) {
			l.Dim = 2
		}
		if l.Wrap == "Feature" {
			l.Props = rndProp(r)
		}
		if at >= len(c.Lines) || oneIn(r, 6) { // not linear, or nothing
			if oneIn(r, 3) {
				text = append(text, FLine{Wrap: "blank"}.text(r))
				if at >= len(c.Lines) {
					break
				}
				continue
			}
			g := rndGeo(r, []string{"Point", "Polygon", "MultiPoint", "MultiPolygon", "GeometryCollection", "none"}[r.Intn(6)])
			if g.Type == "none" {
				l.Wrap = "Feature"
			}
			l.Type = g.Type
			if l.Wrap == "geometry" {
				text = append(text, pad(r, g.text()))
			} else {
				text = append(text, pad(r, feature(g, l.Props)))
			}
			rec.Input = append(rec.Input, l)
			continue
		}
		n := 1
		if oneIn(r, 3) && at+1 < len(c.Lines) {
			n = 2 + r.Intn(imin(3, len(c.Lines)-at-1))
			if many && flip(r) {
				n = imin(11+r.Intn(10), len(c.Lines)-at)
			}
			l.Type = "MultiLineString"
		}
		var parts []string
		for ; n > 0; n-- {
			if l.Dim == 2 || c.Mode == "dp" && !bigTimes && oneIn(r, 4) { // 2D, or a part at zero elevation
				for i := range c.Lines[at] {
					c.Lines[at][i][2] = 0
				}
			} else if c.Mode == "dp" && oneIn(r, 4) { // below zero, or partly so
				z := c.Lines[at][r.Intn(len(c.Lines[at]))][2]
				for i := range c.Lines[at] {
					c.Lines[at][i][2] = z - c.Lines[at][i][2]
				}
			}
			parts = append(parts, c.lineText(at, l.Dim))
			l.Lines = append(l.Lines, at+1)
			at++
		}
		co := parts[0]
		if l.Type == "MultiLineString" {
			co = "[" + strings.Join(parts, ", ") + "]"
		}
		t := fmt.Sprintf(`{"type":"%s","coordinates":%s}`, l.Type, co)
		if l.Wrap == "Feature" {
			if l.Props == 0 && flip(r) {
				t = fmt.Sprintf(`{"type":"Feature","geometry":%s}`, t)
			} else {
				t = fmt.Sprintf(`{"properties":%s,"type":"Feature","geometry":%s}`, props[l.Props], t)
			}
		}
		text = append(text, pad(r, t))
		rec.Input = append(rec.Input, l)
	}
	rec.Lib = c.run().Ranges

	dir, err := os.MkdirTemp("", "vp_c_")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	in, con, out := filepath.Join(dir, "in.json"), filepath.Join(dir, "con.json"), filepath.Join(dir, "out.json")
	body := strings.Join(text, "\n")
	if flip(r) {
		body += "\n"
	}
	if oneIn(r, 3) {
		body = "\n  \n" + body + "\n \n"
	}
	os.WriteFile(in, []byte(body), 0o644)
	var cons []string
	for k := range c.Cons {
		cons = append(cons, pad(r, c.conText(&c.Cons[k])))
		if oneIn(r, 10) { // a line that is no constraint
			cons = append(cons, feature(rndGeo(r, []string{"none", "GeometryCollection"}[r.Intn(2)]), rndProp(r)))
		}
	}
	os.WriteFile(con, []byte(strings.Join(cons, "\n")), 0o644)
	conPath := con
	if len(c.Cons) == 0 && flip(r) {
		conPath = ""
	}
	typ := map[string][]string{"dp": {"DP", "dp", " Dp ", "dP\t"}, "sed": {"SED", "sed", "Sed", " sEd\n"}}[c.Mode]
	base := map[string]interface{}{
		"input": in, "output": out, "constraints": conPath,
		"threshold": c.s(c.Opt.T), "minimum_distance": c.s(c.Opt.Min), "non_planar_displacement": c.s(c.Opt.Disp),
		"is_feature_class": c.FC, "planar_self": c.Opt.Plan, "non_planar_self": c.Opt.NPlan,
		"avoid_new_self_intersects": c.Opt.Avoid, "geometric_relation": c.Opt.Geom, "distance_relation": c.Opt.Dist,
		"homotopy_relation": c.Opt.Dir,
	}
	with := func(k string, v interface{}) map[string]interface{} {
		m := map[string]interface{}{}
		for a, b := range base {
			m[a] = b
		}
		m["simplification_type"] = typ[r.Intn(len(typ))]
		if k != "" {
			m[k] = v
		}
		return m
	}
	// out is the file that is written; before is what it holds (nothing: there is no file)
	call := func(how, out, before string, args ...string) CliRun {
		os.Remove(out)
		if before != "" {
			os.WriteFile(out, []byte(before), 0o644)
		}
		cmd := exec.Command(os.Getenv("VP_TOOL"), args...)
		cmd.Dir = dir
		var errb bytes.Buffer
		cmd.Stderr = &errb
		err := cmd.Run()
		res := CliRun{How: how, Feats: []CliFeat{}}
		if err != nil {
			res.Exit = 1
			if _, ok := err.(*exec.ExitError); !ok {
				fatal("the tool cannot be run:", err)
			}
		}
		b, err := os.ReadFile(out)
		res.Wrote = err == nil && (before == "" || before != string(b)) || err != nil && before != ""
		for _, t := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			if strings.TrimSpace(t) != "" {
				res.Feats = append(res.Feats, c.parseFeat(t))
			}
		}
		return res
	}
	run := func(how string, args ...string) CliRun { return call(how, out, "", args...) }
	old := strings.Repeat(`{"type":"Feature","geometry":null}`+"\n", 40+len(body)/16)
	bad := func(how string, args ...string) {
		before := ""
		if flip(r) {
			before = old
		}
		rec.Bad = append(rec.Bad, call(how, out, before, args...))
	}
	file := func(m map[string]interface{}) []string {
		b, _ := json.MarshalIndent(m, "", "  ")
		f := filepath.Join(dir, "cfg.json")
		if flip(r) {
			b = append([]byte("\n  "), append(b, "\n\n"...)...)
		}
		os.WriteFile(f, b, 0o644)
		return []string{"-f", f}
	}
	b64 := func(m map[string]interface{}) []string {
		b, _ := json.Marshal(m)
		return []string{"-b", base64.StdEncoding.EncodeToString(b)}
	}
	rec.Runs = append(rec.Runs, run("file", file(with("", 0))...))
	rec.Runs = append(rec.Runs, run("base64", b64(with("", 0))...))
	m := with("input", "  "+in+" ")
	m["output"] = " " + out
	rec.Runs = append(rec.Runs, run("padded", b64(m)...))
	if len(body) > 0 && r.Intn(3) == 0 {
		switch r.Intn(3) {
		case 0: // paths relative to the working directory, an output that exists
			m := with("input", "in.json")
			m["output"] = "out.json"
			if conPath != "" {
				m["constraints"] = "./con.json"
			}
			rec.Runs = append(rec.Runs, call("relative", out, old, file(m)...))
		case 1: // the configuration has other entries, and surrounding white space
			m := with("title", "x")
			m["Weights"] = []int{1, 2}
			a := b64(m)
			a[1] = "  " + a[1] + "\n"
			rec.Runs = append(rec.Runs, call("other entries", out, old, a...))
		case 2: // in place
			m := with("output", in)
			rec.Runs = append(rec.Runs, call("in place", in, body, file(m)...))
			os.WriteFile(in, []byte(body), 0o644)
		}
	}
	// to be refused
	unread := func(line string) string { // a file with a line that cannot be read
		f := filepath.Join(dir, "unread.json")
		ls := append([]string{}, text...)
		k := r.Intn(len(ls) + 1)
		ls = append(ls[:k], append([]string{line}, ls[k:]...)...)
		os.WriteFile(f, []byte(strings.Join(ls, "\n")), 0o644)
		return f
	}
	torn := []string{`{"type":"Feature","geometry":{"type":"LineString","coordinates":[[0,0],[1,`, `{"type":"LineString"`, `{`, `]`, "LINESTRING (0 0, 1 1)"}[r.Intn(5)]
	switch r.Intn(13) {
	case 0:
		bad("no configuration")
	case 1:
		bad("two configurations", append(file(with("", 0)), b64(with("", 0))...)...)
	case 2:
		bad("unknown type", b64(with("simplification_type", []string{"", "dpp", "vw", "d p"}[r.Intn(4)]))...)
	case 3:
		bad("no input", file(with("input", filepath.Join(dir, "none.json")))...)
	case 4:
		bad("no output", file(with("output", "  "))...)
	case 5:
		bad("no constraints", b64(with("constraints", filepath.Join(dir, "none.json")))...)
	case 6:
		bad("no input", b64(with("input", ""))...)
	case 7:
		bad("no configuration file", "-f", filepath.Join(dir, "none.cfg"))
	case 8:
		bad("not base64", "-b", b64(with("", 0))[1]+"*")
	case 9:
		b, _ := json.Marshal(with("", 0))
		bad("cut configuration", "-b", base64.StdEncoding.EncodeToString(b[:len(b)-1-r.Intn(40)]))
	case 10:
		bad("torn input", file(with("input", unread(torn)))...)
	case 11:
		bad("torn constraints", file(with("constraints", unread(torn)))...)
	case 12:
		bad("input is a directory", file(with("input", dir))...)
	}
	return rec, 1, nil
}

func (c *Case) parseFeat(t string) CliFeat {
	f := CliFeat{Kind: "unknown", Props: -1, Parts: [][][3]int64{}}
	var o struct {
		Type       string          `json:"type"`
		Properties json.RawMessage `json:"properties"`
		Geometry   struct {
			Type        string          `json:"type"`
			Coordinates json.RawMessage `json:"coordinates"`
		} `json:"geometry"`
	}
	if json.Unmarshal([]byte(t), &o) != nil {
		return f
	}
	f.Kind, f.Type, f.Props = o.Type, o.Geometry.Type, propIdx(string(o.Properties))
	var parts [][][]float64
	switch f.Type {
	case "LineString":
		var p [][]float64
		if json.Unmarshal(o.Geometry.Coordinates, &p) != nil {
			return f
		}
		parts = append(parts, p)
	case "MultiLineString":
		if json.Unmarshal(o.Geometry.Coordinates, &parts) != nil {
			return f
		}
	}
	for _, p := range parts {
		path := [][3]int64{}
		for _, q := range p {
			z := int64(0)
			if len(q) == 3 {
				z = zIn(q[2])
			} else if len(q) != 2 {
				path = append(path, [3]int64{-1, -1, -1})
				continue
			}
			path = append(path, [3]int64{c.inv(q[0], c.Tx), c.inv(q[1], c.Ty), z})
		}
		f.Parts = append(f.Parts, path)
	}
	return f
}
