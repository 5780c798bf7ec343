package main

import (
	"math"
	"sort"

	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/dp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

// R is a fragment: the range of vertex indices [I, J]
type R [2]int

func (c *Case) s(v int64) float64 { return math.Ldexp(float64(v), c.Sc) }
func (c *Case) x(v int64) float64 { return c.s(v) + float64(c.Tx) }
func (c *Case) y(v int64) float64 { return c.s(v) + float64(c.Ty) }

// grid coordinate of a real one; -1 when it is not a grid coordinate
func (c *Case) inv(v float64, t int64) int64 {
	f := math.Ldexp(v-float64(t), -c.Sc)
	if f != math.Trunc(f) || f < 0 || f > 1e6 {
		return -1
	}
	return int64(f)
}

func (c *Case) polyline(l int, id string) *geometry.Polyline {
	var ps = make([]geom.Point, 0, len(c.Lines[l]))
	for _, p := range c.Lines[l] {
		ps = append(ps, geom.CreatePoint([]float64{c.x(p[0]), c.y(p[1]), float64(p[2])}))
	}
	return geometry.CreatePolyline(id, geom.Coordinates(ps), "null")
}

func (c *Case) ring(r []P) geom.Coords {
	var ps = make([]geom.Point, 0, len(r))
	for _, p := range r {
		ps = append(ps, geom.CreatePoint([]float64{c.x(p[0]), c.y(p[1])}))
	}
	return geom.Coordinates(ps)
}

func (c *Case) constraint(k *Con) geometry.IGeometry {
	switch k.Type {
	case "point":
		return geometry.CreatePoint("0", []float64{c.x(k.Parts[0][0][0]), c.y(k.Parts[0][0][1])}, "")
	case "line":
		return geometry.CreatePolyline("0", c.ring(k.Parts[0]), "")
	}
	var rs []geom.Coords
	for _, r := range k.Parts {
		rs = append(rs, c.ring(r))
	}
	return geometry.CreatePolygon("0", rs, "")
}

func (c *Case) constraints() []geometry.IGeometry {
	var out = make([]geometry.IGeometry, 0)
	for i := range c.Cons {
		out = append(out, c.constraint(&c.Cons[i]))
	}
	return out
}

func (c *Case) options() *opts.Opts {
	return &opts.Opts{
		Threshold: c.s(c.Opt.T), MinDist: c.s(c.Opt.Min), NonPlanarDisplacement: c.s(c.Opt.Disp),
		PlanarSelf: c.Opt.Plan, NonPlanarSelf: c.Opt.NPlan, AvoidNewSelfIntersects: c.Opt.Avoid,
		GeomRelation: c.Opt.Geom, DistRelation: c.Opt.Dist, DirRelation: c.Opt.Dir,
	}
}

func scores(mode string) (lnr.ScoreFn, lnr.ScoreFn) {
	if mode == "sed" {
		return offset.MaxSEDOffset, offset.SqureMaxSEDOffset
	}
	return offset.MaxOffset, offset.SquareMaxOffset
}

func (c *Case) instance(id *iter.Igen, l int, cons []geometry.IGeometry, options *opts.Opts) *constdp.ConstDP {
	f, sq := scores(c.Mode)
	if c.Sq {
		return constdp.NewConstDP(id.Next(), c.polyline(l, "0"), cons, options, f, sq)
	}
	return constdp.NewConstDP(id.Next(), c.polyline(l, "0"), cons, options, f)
}

func (c *Case) forest(id *iter.Igen, options *opts.Opts) []*constdp.ConstDP {
	var cons = c.constraints()
	var out = make([]*constdp.ConstDP, 0)
	for l := range c.Lines {
		out = append(out, c.instance(id, l, cons, options))
	}
	return out
}

func sortedHulls(ns []node.Node) []*node.Node {
	var hs = make([]*node.Node, len(ns))
	for i := range ns {
		hs[i] = &ns[i]
	}
	sort.SliceStable(hs, func(a, b int) bool {
		ra, rb := hs[a].Range, hs[b].Range
		return ra.I < rb.I || (ra.I == rb.I && ra.J < rb.J)
	})
	return hs
}

func ranges(ns []node.Node) []R {
	var out = make([]R, 0, len(ns))
	for _, h := range sortedHulls(ns) {
		out = append(out, R{h.Range.I, h.Range.J})
	}
	return out
}

// coordinates of each fragment, on the grid of the case
func (c *Case) frags(ns []node.Node) [][][3]int64 {
	var out = make([][][3]int64, 0, len(ns))
	for _, h := range sortedHulls(ns) {
		out = append(out, c.grid(h.Coordinates()))
	}
	return out
}

func (c *Case) grid(cs geom.Coords) [][3]int64 {
	var out = make([][3]int64, 0, cs.Len())
	for i := 0; i < cs.Len(); i++ {
		p := cs.Pt(i)
		out = append(out, [3]int64{c.inv(p[0], c.Tx), c.inv(p[1], c.Ty), int64(p[2])})
	}
	return out
}

func setOf(o *dp.DouglasPeucker) []int {
	var out = make([]int, 0)
	for _, v := range o.SimpleSet.Values() {
		out = append(out, v.(int))
	}
	return out
}

// Out is what the real code did with a case.
type Out struct {
	Ranges [][]R          `json:"final"`
	Simple [][]int        `json:"simple"`
	Frags  [][][][3]int64 `json:"frags"`
	Coords [][][3]int64   `json:"coords"` // coordinates of the instance afterwards
	Rounds []int          `json:"rounds"` // fragments checked in each round of the class; [-1]: not asked for
}

func (c *Case) collect(forest []*constdp.ConstDP) *Out {
	var out = &Out{Ranges: [][]R{}, Simple: [][]int{}, Frags: [][][][3]int64{}, Coords: [][][3]int64{}}
	for _, f := range forest {
		out.Ranges = append(out.Ranges, ranges(f.Hulls))
		out.Simple = append(out.Simple, setOf(f.DouglasPeucker))
		out.Frags = append(out.Frags, c.frags(f.Hulls))
		out.Coords = append(out.Coords, c.grid(f.Coordinates()))
	}
	return out
}

func (c *Case) simplify(id *iter.Igen, forest []*constdp.ConstDP, options *opts.Opts) []int {
	var rounds = make([]int, 0)
	if !c.FC {
		constdp.SimplifyInstances(id, forest, map[int][]int{})
	} else if c.Idx%4 == 1 {
		constdp.SimplifyFeatureClass(id, forest, options)
		rounds = append(rounds, -1)
	} else {
		constdp.SimplifyFeatureClass(id, forest, options, func(n int) { rounds = append(rounds, n) })
	}
	return rounds
}

func (c *Case) run() *Out {
	var id = iter.NewIgen()
	var options = c.options()
	var forest = c.forest(id, options)
	rounds := c.simplify(id, forest, options)
	out := c.collect(forest)
	out.Rounds = rounds
	return out
}

// result before the lines of a class are checked against each other
func (c *Case) stage() [][]R {
	var id = iter.NewIgen()
	var options = c.options()
	var forest = c.forest(id, options)
	var junctions = make(map[int][]int)
	if c.FC && options.PlanarSelf {
		var fc = make([]*lnr.FC, 0)
		for _, f := range forest {
			fc = append(fc, lnr.NewFC(f.Coordinates(), f.Id()))
		}
		junctions = lnr.FCPlanarSelfIntersection(fc)
	}
	constdp.SimplifyInstances(id, forest, junctions)
	var out = make([][]R, 0)
	for _, f := range forest {
		out = append(out, ranges(f.Hulls))
	}
	return out
}

func (c *Case) base() [][]R {
	var out = make([][]R, 0)
	var id = iter.NewIgen()
	for _, f := range c.forest(id, c.options()) {
		out = append(out, ranges(f.Decompose(id)))
	}
	return out
}

// the unconstrained simplifier
func (c *Case) plain() ([][]R, [][]int) {
	var rs = make([][]R, 0)
	var ss = make([][]int, 0)
	var id = iter.NewIgen()
	f, sq := scores(c.Mode)
	for l := range c.Lines {
		var o *dp.DouglasPeucker
		if c.Sq {
			o = dp.New(id.Next(), c.polyline(l, "0"), c.options(), f, sq)
		} else {
			o = dp.New(id.Next(), c.polyline(l, "0"), c.options(), f)
		}
		o.Simplify(id)
		rs = append(rs, ranges(o.Hulls))
		s := o.Simple()
		ss = append(ss, append(make([]int, 0), s...))
	}
	return rs, ss
}
