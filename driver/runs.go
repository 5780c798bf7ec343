package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strconv"

	"github.com/TopoSimplify/plugin/constdp"
	"github.com/intdxdt/iter"
)

// RunsRec: the same inputs simplified in several ways
type RunsRec struct {
	*Case
	Kind    string `json:"kind"`
	Outcome string `json:"outcome"`
	Runs    []Run  `json:"runs"`
}

// Run is one call: the lines given (1-based, in order), as a feature class or not, with what
// options and constraints, on how many processors; and the fragments of each
type Run struct {
	What  string `json:"what"`
	Procs int    `json:"procs"`
	FC    bool   `json:"fc"`
	Lines []int  `json:"lines"`
	Opt   Opt    `json:"opt"`
	Cons  []Con  `json:"cons"`
	Extra []Con  `json:"extra"` // constraints beyond those of the case
	Final [][]R  `json:"final"`
}

func init() {
	recorders["det"] = recDet
	recorders["indep"] = recIndep
	recorders["meta"] = recMeta
	recorders["inst"] = recInst
	inputs["det"] = func(seed int64, idx int) interface{} {
		c := detCase(rng4("det", seed, idx), idx)
		return &RunsRec{Case: c, Kind: "runs", Runs: []Run{}}
	}
}

func (c *Case) nonNil(fam string, seed int64, idx int) *Case {
	c.Fam, c.Seed, c.Idx = fam, seed, idx
	if c.Lines == nil {
		c.Lines = [][][3]int64{}
	}
	if c.Cons == nil {
		c.Cons = []Con{}
	}
	return c
}

// the case restricted to some of its lines, in this order
func (c *Case) only(sel []int) *Case {
	var d = *c
	d.Lines = nil
	for _, l := range sel {
		d.Lines = append(d.Lines, c.Lines[l-1])
	}
	return &d
}

func oneTo(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i + 1
	}
	return out
}

func (c *Case) asRun(what string, procs int, sel []int) Run {
	d := c.only(sel)
	if procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
	}
	cons := d.Cons
	if cons == nil {
		cons = []Con{}
	}
	return Run{what, procs, d.FC, sel, d.Opt, cons, []Con{}, d.run().Ranges}
}

// several lines that interact, more than there are workers
func detCase(r *rand.Rand, idx int) *Case {
	var c *Case
	switch idx % 4 {
	case 0:
		c = families["fc"](r)
	case 1:
		c = families["mix"](r)
	case 2:
		c = families["fcj"](r)
	default: // many features
		g := pick(r, 30, 60)
		c = &Case{Mode: rndMode(r), Sq: flip(r), FC: true}
		for k := 9 + r.Intn(25); k > 0; k-- {
			c.setLines(r, anyLine(r, 2+r.Intn(14), g))
		}
		c.Opt.T = 1 + r.Int63n(g/3)
		rndAll(r, &c.Opt, g)
		c.Cons = genCons(r, c.pts(0), g)
		c.embed(r)
	}
	if idx%2 == 1 {
		c.FC = flip(r)
	}
	return c.nonNil("det", 0, idx)
}

func recDet(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("det", seed, idx)
	c := detCase(r, idx)
	rec := &RunsRec{Case: c, Kind: "runs", Outcome: "returned", Runs: []Run{}}
	all := oneTo(len(c.Lines))
	intr := 0
	for _, p := range []int{1, 8, 2, 3, 1 + r.Intn(16), 8} {
		rec.Runs = append(rec.Runs, c.asRun("again", p, all))
	}
	if idx%3 == 0 { // nothing has been simplified there before
		rec.Runs = append(rec.Runs, freshRun(seed, idx, 1+r.Intn(8)))
	}
	for l, f := range rec.Runs[0].Final {
		if len(f) > 1 && len(f) < len(c.Lines[l])-1 {
			intr = 1
		}
	}
	return rec, intr, sameRuns(rec, "C14")
}

// the run in a process of its own
func freshRun(seed int64, idx, procs int) Run {
	var run Run
	out, err := exec.Command(os.Args[0], "fresh", strconv.FormatInt(seed, 10), strconv.Itoa(idx), strconv.Itoa(procs)).Output()
	if err == nil {
		err = json.Unmarshal(out, &run)
	}
	if err != nil {
		panic("a run in a process of its own failed: " + err.Error())
	}
	return run
}

func printFresh(seed int64, idx, procs int) {
	c := detCase(rng4("det", seed, idx), idx)
	fmt.Println(js(c.asRun("fresh", procs, oneTo(len(c.Lines)))))
}

func eqRanges(a, b []R) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// doubts: a line has two results
func sameRuns(rec *RunsRec, prop string) []string {
	var res = map[int][]R{}
	for _, run := range rec.Runs {
		for k, l := range run.Lines {
			if k >= len(run.Final) {
				return []string{prop}
			}
			if x, ok := res[l]; ok && !eqRanges(x, run.Final[k]) {
				return []string{prop}
			}
			res[l] = run.Final[k]
		}
	}
	return nil
}

func recIndep(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("indep", seed, idx)
	fam := []string{"fc", "mix", "fcj", "con", "stake"}[r.Intn(5)]
	c := families[fam](r)
	if len(c.Lines) < 2 || oneIn(r, 3) {
		g := pick(r, 10, 30)
		for k := 1 + r.Intn(6); k > 0; k-- {
			c.setLines(r, anyLine(r, rlen(r, 2, 10, 30), g))
		}
	}
	if oneIn(r, 4) { // the same line again
		c.Lines = append(c.Lines, c.Lines[r.Intn(len(c.Lines))])
	}
	c.FC = idx%2 == 0
	c.nonNil("indep", seed, idx)
	rec := &RunsRec{Case: c, Kind: "runs", Outcome: "returned", Runs: []Run{}}
	n := len(c.Lines)
	rec.Runs = append(rec.Runs, c.asRun("together", 0, oneTo(n)))
	for k := 0; k < 2; k++ {
		perm := r.Perm(n)
		for i := range perm {
			perm[i]++
		}
		rec.Runs = append(rec.Runs, c.asRun("permuted", 0, perm))
	}
	if !c.FC {
		for l := 1; l <= n; l++ {
			rec.Runs = append(rec.Runs, c.asRun("alone", 0, []int{l}))
		}
		if n > 2 {
			rec.Runs = append(rec.Runs, c.asRun("some", 0, oneTo(n)[:n/2]))
		}
	}
	return rec, 1, sameRuns(rec, "C16")
}

// -------------------------------------------- what is not at stake: C12
func recMeta(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("meta", seed, idx)
	fam := []string{"fc", "con", "stake", "mix", "avoid"}[r.Intn(5)]
	c := families[fam](r).nonNil("meta", seed, idx)
	rec := &RunsRec{Case: c, Kind: "meta", Outcome: "returned", Runs: []Run{}}
	all := oneTo(len(c.Lines))
	// one more line to be put apart from the others, far away in the plane
	var x1, y1 int64
	for l := range c.Lines {
		for _, p := range c.Lines[l] {
			x1, y1 = max64(x1, p[0]), max64(y1, p[1])
		}
	}
	if len(c.Lines) == 0 || c.Big || x1+y1 > 240 {
		return rec, 0, nil
	}
	rec.Runs = append(rec.Runs, c.asRun("base", 0, all))
	side := func(p P, d int64) P { // beyond the right or the upper side of all lines
		if flip(r) {
			return P{x1 + d + p[0], p[1]}
		}
		return P{p[0], y1 + d + p[1]}
	}
	// constraints farther than the minimum distance
	d := *c
	d.Cons = append([]Con{}, c.Cons...)
	extra := []Con{}
	for k := 1 + r.Intn(4); k > 0; k-- {
		con := genCon(r, 12)
		dx := side(P{0, 0}, c.Opt.Min+1+r.Int63n(3))
		for _, part := range con.Parts {
			for i := range part {
				part[i][0] += dx[0]
				part[i][1] += dx[1]
			}
		}
		extra = append(extra, con)
	}
	// and near the lines, where the hull of each line happens to be farther away
	for k := 0; k < 4; k++ {
		extra = append(extra, Con{"point", [][]P{{P{r.Int63n(x1 + 1), r.Int63n(y1 + 1)}}}})
	}
	var keep []Con
	for _, e := range extra {
		far := true
		for l := range c.Lines {
			far = far && farFromHull(c.pts(l), &e, c.Opt.Min)
		}
		if far {
			keep = append(keep, e)
		}
	}
	extra = keep
	if len(extra) > 0 {
		d.Cons = append(d.Cons, extra...)
		run := d.asRun("far", 0, all)
		run.Extra = extra
		rec.Runs = append(rec.Runs, run)
	}
	// switched-off options
	d = *c
	if !d.Opt.Dist && !d.Opt.Geom && !d.Opt.Dir {
		d.Cons = append(append([]Con{}, c.Cons...), genConNear(r, c.pts(0), 20), genConNear(r, c.pts(0), 20))
		d.Opt.Min = c.Opt.Min + r.Int63n(5)
	}
	if !d.Opt.Dist {
		d.Opt.Min = r.Int63n(10)
	}
	if !d.Opt.Avoid {
		d.Opt.Disp = r.Int63n(10)
	}
	rec.Runs = append(rec.Runs, d.asRun("off", 0, all))
	// a feature apart from the others
	if c.FC {
		e := *c
		e.Lines = append([][][3]int64{}, c.Lines...)
		for k := 1 + r.Intn(3); k > 0; k-- {
			l := anyLine(r, 3+r.Intn(8), 15)
			s := side(P{0, 0}, 1+r.Int63n(4))
			for i := range l {
				l[i][0] += s[0]
				l[i][1] += s[1]
			}
			for len(l) < 2 {
				l = append(l, P{s[0] + 1, s[1] + r.Int63n(9)})
			}
			e.Lines = append(e.Lines, timed(r, l))
		}
		c.Lines = e.Lines // the record has all lines; the base run used the first ones
		rec.Runs = append(rec.Runs, e.asRun("apart", 0, oneTo(len(e.Lines))))
	}
	for i := range rec.Runs {
		if rec.Runs[i].Extra == nil {
			rec.Runs[i].Extra = []Con{}
		}
		if rec.Runs[i].Cons == nil {
			rec.Runs[i].Cons = []Con{}
		}
	}
	return rec, 1, sameRuns(rec, "C12")
}

// mirror only: the hull of the points is farther than m from the constraint
func farFromHull(l []P, k *Con, m int64) bool {
	for i := range l {
		for j := i; j < len(l); j++ {
			n, q := segConDist(l[i], l[j], k)
			if n <= m*m*q {
				return false
			}
		}
	}
	// inside a triangle of points
	for _, part := range k.Parts {
		for _, p := range part {
			for a := range l {
				for b := range l {
					for c := range l {
						if cross(l[a], l[b], l[c]) > 0 && cross(l[a], l[b], p) >= 0 && cross(l[b], l[c], p) >= 0 && cross(l[c], l[a], p) >= 0 {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// ----------------------------------------------------- one instance: C15
type InstRec struct {
	Kind    string       `json:"kind"`
	Idx     int          `json:"idx"`
	Outcome string       `json:"outcome"`
	Lines   [][][3]int64 `json:"lines"`
	ConSets [][]Con      `json:"consets"`
	Line    int          `json:"line"` // initial state, 1-based
	Con     int          `json:"con"`
	Opt     Opt          `json:"opt"`
	Mode    string       `json:"mode"`
	Sq      bool         `json:"sq"`
	Ops     []InstOp     `json:"ops"`
}
type InstOp struct {
	Op    string     `json:"op"`
	Opt   Opt        `json:"opt"`
	Mode  string     `json:"mode"`
	Sq    bool       `json:"sq"`
	Line  int        `json:"line"`
	Con   int        `json:"con"`
	Fixed []int      `json:"fixed"`  // vertices to keep, given to the call
	Res   []R        `json:"res"`    // result of the instance
	Set   []int      `json:"set"`    // its retained vertices
	Coord [][3]int64 `json:"coords"` // its coordinates afterwards
	Fresh []R        `json:"fresh"`  // result of a fresh instance
}

func recInst(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("inst", seed, idx)
	fam := []string{"con", "mix", "self", "avoid", "agg"}[r.Intn(5)]
	c := families[fam](r).nonNil("inst", seed, idx)
	if len(c.Lines) == 0 || c.Big {
		c = families["con"](r).nonNil("inst", seed, idx)
	}
	c.Lines = c.Lines[:1]
	g := pick(r, 10, 30)
	for k := r.Intn(2); k > 0; k-- {
		c.setLines(r, anyLine(r, rlen(r, 3, 12, 30), g))
	}
	rec := &InstRec{Kind: "inst", Idx: idx, Outcome: "returned", Lines: c.Lines, Line: 1, Con: 1, Opt: c.Opt, Mode: c.Mode, Sq: c.Sq}
	rec.ConSets = [][]Con{c.Cons, {}}
	if oneIn(r, 2) {
		rec.ConSets = append(rec.ConSets, append([]Con{}, genCons(r, c.pts(0), g)...))
	}
	id := iter.NewIgen()
	now := *c // the abstract state
	line, con := 1, 1
	options := now.options()
	inst := now.instance(id, 0, now.constraints(), options)
	newOpt := func() Opt {
		o := now.Opt
		switch r.Intn(4) {
		case 0:
			o.T = rndT(r, g)
		case 1:
			rndAll(r, &o, g)
		case 2:
			o.Plan, o.NPlan, o.Avoid = flip(r), flip(r), flip(r)
		default:
			o.Geom, o.Dist, o.Dir = flip(r), flip(r), flip(r)
			o.Min = r.Int63n(g / 2)
		}
		return o
	}
	fill := func(op InstOp) {
		op.Opt, op.Mode, op.Sq, op.Line, op.Con = now.Opt, now.Mode, now.Sq, line, con
		if op.Fixed == nil {
			op.Fixed = []int{}
		}
		if op.Res == nil {
			op.Res = []R{}
		}
		if op.Set == nil {
			op.Set = []int{}
		}
		if op.Fresh == nil {
			op.Fresh = []R{}
		}
		op.Coord = now.grid(inst.Coordinates())
		rec.Ops = append(rec.Ops, op)
	}
	fresh := func() *constdp.ConstDP {
		d := now
		return d.instance(iter.NewIgen(), line-1, d.constraints(), d.options())
	}
	simp := 0
	for k := 3 + r.Intn(9); k > 0 || simp < 2; k-- {
		switch w := r.Intn(12); {
		case w < 4: // simplify
			var fixed []int
			if oneIn(r, 4) {
				n := inst.Coordinates().Len()
				for v := 0; v < n; v++ {
					if oneIn(r, 5) {
						fixed = append(fixed, v)
					}
				}
			}
			f := fresh()
			if fixed == nil && flip(r) {
				constdp.SimplifyInstances(id, []*constdp.ConstDP{inst}, map[int][]int{})
				constdp.SimplifyInstances(iter.NewIgen(), []*constdp.ConstDP{f}, map[int][]int{})
			} else if fixed == nil {
				inst.Simplify(id)
				f.Simplify(iter.NewIgen())
			} else {
				inst.Simplify(id, fixed)
				f.Simplify(iter.NewIgen(), append([]int{}, fixed...))
			}
			fill(InstOp{Op: "simplify", Fixed: fixed, Res: ranges(inst.Hulls), Set: setOf(inst.DouglasPeucker), Fresh: ranges(f.Hulls)})
			simp++
		case w == 4: // as a feature class
			f := fresh()
			constdp.SimplifyFeatureClass(id, []*constdp.ConstDP{inst}, inst.Opts)
			constdp.SimplifyFeatureClass(iter.NewIgen(), []*constdp.ConstDP{f}, f.Opts)
			fill(InstOp{Op: "class", Res: ranges(inst.Hulls), Set: setOf(inst.DouglasPeucker), Fresh: ranges(f.Hulls)})
			simp++
		case w == 5:
			fill(InstOp{Op: "decompose", Res: ranges(inst.Decompose(id)), Fresh: ranges(fresh().Decompose(iter.NewIgen()))})
		case w < 8: // options in place, or other options
			now.Opt = newOpt()
			o := now.options()
			if flip(r) {
				*inst.Opts = *o
			} else {
				inst.Opts = o
			}
			fill(InstOp{Op: "options"})
		case w == 8:
			now.Mode = rndMode(r)
			now.Sq = flip(r)
			s, q := scores(now.Mode)
			inst.Score, inst.SquareScore = s, nil
			if now.Sq {
				inst.SquareScore = q
			}
			fill(InstOp{Op: "score"})
		case w == 9 && len(rec.Lines) > 1:
			line = 1 + r.Intn(len(rec.Lines))
			inst.Polyline = now.polyline(line-1, "0")
			fill(InstOp{Op: "line"})
		case w == 10:
			con = 1 + r.Intn(len(rec.ConSets))
			now.Cons = rec.ConSets[con-1]
			inst.BuildContextDB(now.constraints())
			fill(InstOp{Op: "constraints"})
		}
		if k < -20 {
			break
		}
	}
	var susp []string
	for _, o := range rec.Ops {
		if !eqRanges(o.Res, o.Fresh) {
			susp = []string{"C15"}
		}
	}
	return rec, b2i(simp > 1), susp
}
