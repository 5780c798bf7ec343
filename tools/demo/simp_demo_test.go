package constdp_test

// Replays one input (case.json) through the public API and compares what the
// simplifier keeps with what the property demands for that input.

import (
	"encoding/json"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"testing"

	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

type demo struct {
	Lines [][][3]float64 `json:"lines"`
	Cons  []struct {
		Type  string         `json:"type"`
		Parts [][][2]float64 `json:"parts"`
	} `json:"cons"`
	Opt struct {
		T, Min, Disp                         float64
		Plan, Nplan, Avoid, Geom, Dist, Dir bool
	} `json:"opt"`
	Mode string  `json:"mode"`
	Sq   bool    `json:"sq"`
	FC   bool    `json:"fc"`
	Tx   float64 `json:"tx"`
	Ty   float64 `json:"ty"`
	Sc   int     `json:"sc"`
	Why  string  `json:"why"`
	Want []kept  `json:"want"`
}

type kept struct {
	Ranges [][2]int `json:"ranges"`
	Simple []int    `json:"simple"`
}

func (d *demo) pt(x, y float64) []float64 {
	return []float64{math.Ldexp(x, d.Sc) + d.Tx, math.Ldexp(y, d.Sc) + d.Ty}
}

func (d *demo) ring(r [][2]float64) geom.Coords {
	var ps []geom.Point
	for _, p := range r {
		ps = append(ps, geom.CreatePoint(d.pt(p[0], p[1])))
	}
	return geom.Coordinates(ps)
}

func (d *demo) run() []kept {
	var id = iter.NewIgen()
	var s = func(v float64) float64 { return math.Ldexp(v, d.Sc) }
	var o = &opts.Opts{
		Threshold: s(d.Opt.T), MinDist: s(d.Opt.Min), NonPlanarDisplacement: s(d.Opt.Disp),
		PlanarSelf: d.Opt.Plan, NonPlanarSelf: d.Opt.Nplan, AvoidNewSelfIntersects: d.Opt.Avoid,
		GeomRelation: d.Opt.Geom, DistRelation: d.Opt.Dist, DirRelation: d.Opt.Dir,
	}
	var cons []geometry.IGeometry
	for _, c := range d.Cons {
		switch c.Type {
		case "point":
			cons = append(cons, geometry.CreatePoint("0", d.pt(c.Parts[0][0][0], c.Parts[0][0][1]), ""))
		case "line":
			cons = append(cons, geometry.CreatePolyline("0", d.ring(c.Parts[0]), ""))
		default:
			var rs []geom.Coords
			for _, r := range c.Parts {
				rs = append(rs, d.ring(r))
			}
			cons = append(cons, geometry.CreatePolygon("0", rs, ""))
		}
	}
	var f, sq = offset.MaxOffset, offset.SquareMaxOffset
	if d.Mode == "sed" {
		f, sq = offset.MaxSEDOffset, offset.SqureMaxSEDOffset
	}
	var forest []*constdp.ConstDP
	for _, l := range d.Lines {
		var ps []geom.Point
		for _, p := range l {
			ps = append(ps, geom.CreatePoint(append(d.pt(p[0], p[1]), p[2])))
		}
		var pln = geometry.CreatePolyline("0", geom.Coordinates(ps), "null")
		if d.Sq {
			forest = append(forest, constdp.NewConstDP(id.Next(), pln, cons, o, f, sq))
		} else {
			forest = append(forest, constdp.NewConstDP(id.Next(), pln, cons, o, f))
		}
	}
	if d.FC {
		constdp.SimplifyFeatureClass(id, forest, o)
	} else {
		constdp.SimplifyInstances(id, forest, map[int][]int{})
	}
	var out []kept
	for _, f := range forest {
		var k = kept{Ranges: [][2]int{}, Simple: []int{}}
		var hs = append([]node.Node{}, f.Hulls...)
		sort.Slice(hs, func(i, j int) bool {
			return hs[i].Range.I < hs[j].Range.I || (hs[i].Range.I == hs[j].Range.I && hs[i].Range.J < hs[j].Range.J)
		})
		for _, h := range hs {
			k.Ranges = append(k.Ranges, [2]int{h.Range.I, h.Range.J})
		}
		for _, v := range f.SimpleSet.Values() {
			k.Simple = append(k.Simple, v.(int))
		}
		out = append(out, k)
	}
	return out
}

func TestDemo(t *testing.T) {
	var file = filepath.Join(os.Getenv("DEMO_DIR"), "case.json")
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	var d demo
	if err = json.Unmarshal(b, &d); err != nil {
		t.Fatal(err)
	}
	if os.Getenv("DEMO_WRITE") != "" {
		d.Want = d.run()
		if b, err = json.Marshal(d.Want); err == nil {
			err = os.WriteFile(os.Getenv("DEMO_WRITE"), b, 0644)
		}
		if err != nil {
			t.Fatal(err)
		}
		return
	}
	for try := 0; try < 20; try++ {
		if got := d.run(); !reflect.DeepEqual(got, d.Want) {
			t.Fatalf("%s\n got %v\nwant %v", d.Why, got, d.Want)
		}
	}
}
