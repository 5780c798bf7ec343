package main

// Small worlds, every input of them: lines on a grid of 3x3 or 4x4 points with
// every touch, overlap, repeated vertex and tie, the worlds of the model checked
// in spec/MCAlgo.tla and larger ones of the same kind. A case is known by its
// number; numbers are dealt so that any interval is spread over the world.

type world struct {
	g     int64 // coordinates 0..g
	z     int64 // times z
	sizes []int // vertices of each line
	first []P   // where the first line starts
	opts  []Opt
	cons  [][]Con // what is around
	fc    bool
}

func gridPts(g int64) []P {
	var ps []P
	for x := int64(0); x <= g; x++ {
		for y := int64(0); y <= g; y++ {
			ps = append(ps, P{x, y})
		}
	}
	return ps
}

// up to the symmetries of the grid
func corner(g int64) []P {
	var ps []P
	for _, p := range gridPts(g) {
		if p[0] <= p[1] && 2*p[1] <= g {
			ps = append(ps, p)
		}
	}
	return ps
}

func (w *world) size() int {
	n := len(w.opts) * imax(1, len(w.cons))
	p := len(gridPts(w.g))
	for k, s := range w.sizes {
		if k == 0 {
			n *= len(w.first)
		} else {
			n *= p
		}
		for i := 1; i < s; i++ {
			n *= p - 1
		}
	}
	return n
}

func (w *world) at(n int) *Case {
	next := func(k int) int { r := n % k; n /= k; return r }
	ps := gridPts(w.g)
	c := &Case{Mode: "dp", FC: w.fc, Opt: w.opts[next(len(w.opts))]}
	if len(w.cons) > 0 {
		c.Cons = append([]Con{}, w.cons[next(len(w.cons))]...)
	}
	for k, s := range w.sizes {
		var line []P
		if k == 0 {
			line = []P{w.first[next(len(w.first))]}
		} else {
			line = []P{ps[next(len(ps))]}
		}
		for len(line) < s {
			last := line[len(line)-1]
			v := next(len(ps) - 1)
			if q := int(last[0]*(w.g+1) + last[1]); v >= q {
				v++
			}
			line = append(line, ps[v])
		}
		var ts [][3]int64
		for i, p := range line {
			ts = append(ts, [3]int64{p[0] * w.z, p[1] * w.z, int64(i)})
		}
		c.Lines = append(c.Lines, ts)
	}
	return c
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

var worlds = map[string][]*world{}

func enumCase(fam string, seed int64, idx int) *Case {
	ws := worlds[fam]
	total := 0
	for _, w := range ws {
		total += w.size()
	}
	step := total*61803/100000 | 1
	for gcd(step, total) != 1 {
		step += 2
	}
	n := (idx%total*step + int(seed)*7919) % total
	for _, w := range ws {
		if n < w.size() {
			c := w.at(n)
			c.Sq = idx%2 == 1
			return c.nonNil(fam, seed, idx)
		}
		n -= w.size()
	}
	return nil
}

func onePoint(g int64) [][]Con {
	var out [][]Con
	for _, p := range gridPts(g) {
		out = append(out, []Con{{"point", [][]P{{p}}}})
	}
	return out
}

func init() {
	avoid := func(ts []int64, ds []int64) []Opt {
		var out []Opt
		for _, t := range ts {
			for _, d := range ds {
				out = append(out, Opt{T: t, Disp: d, Avoid: true})
			}
		}
		return out
	}
	a6 := avoid([]int64{1, 2, 4}, []int64{0, 400})
	worlds["enumavoid"] = []*world{
		{g: 2, z: 1, sizes: []int{4}, first: corner(2), opts: a6},
		{g: 2, z: 1, sizes: []int{5}, first: corner(2), opts: a6},
		{g: 2, z: 1, sizes: []int{6}, first: corner(2), opts: a6},
		{g: 3, z: 1, sizes: []int{4}, first: corner(3), opts: a6},
		{g: 3, z: 1, sizes: []int{5}, first: corner(3), opts: a6[2:]},
	}
	a4 := avoid([]int64{1, 4}, []int64{0, 400})
	worlds["enumclass"] = []*world{
		{g: 1, z: 1, sizes: []int{3, 3}, first: corner(1), opts: a4, fc: true},
		{g: 1, z: 1, sizes: []int{4, 3}, first: corner(1), opts: a4, fc: true},
		{g: 1, z: 1, sizes: []int{4, 4}, first: corner(1), opts: a4, fc: true},
		{g: 1, z: 1, sizes: []int{3, 3, 3}, first: corner(1), opts: a4, fc: true},
		{g: 2, z: 1, sizes: []int{3, 3}, first: corner(2), opts: a4, fc: true},
		{g: 2, z: 1, sizes: []int{4, 2}, first: corner(2), opts: a4, fc: true},
		{g: 2, z: 1, sizes: []int{4, 3}, first: corner(2), opts: a4[3:], fc: true},
	}
	var vs []Opt
	for k := 1; k < 4; k++ {
		for _, av := range []bool{false, true} {
			vs = append(vs, Opt{T: 4, Disp: 400, Plan: k&1 != 0, NPlan: k&2 != 0, Avoid: av})
		}
	}
	worlds["enumvert"] = []*world{
		{g: 2, z: 1, sizes: []int{4}, first: corner(2), opts: vs},
		{g: 2, z: 1, sizes: []int{5}, first: corner(2), opts: vs},
		{g: 2, z: 1, sizes: []int{6}, first: corner(2), opts: vs},
		{g: 1, z: 1, sizes: []int{7}, first: corner(1), opts: vs},
	}
	worlds["enumjunc"] = []*world{
		{g: 1, z: 1, sizes: []int{3, 3}, first: corner(1), opts: vs, fc: true},
		{g: 1, z: 1, sizes: []int{4, 3}, first: corner(1), opts: vs, fc: true},
		{g: 1, z: 1, sizes: []int{3, 3, 3}, first: corner(1), opts: vs, fc: true},
		{g: 2, z: 1, sizes: []int{3, 3}, first: corner(2), opts: vs, fc: true},
		{g: 2, z: 1, sizes: []int{4, 3}, first: corner(2), opts: vs[:1], fc: true},
	}
	rel := []Opt{{T: 8, Disp: 400, Geom: true, Min: 1}, {T: 8, Disp: 400, Dist: true, Min: 1}, {T: 8, Disp: 400, Dir: true, Min: 1},
		{T: 2, Disp: 400, Geom: true, Dist: true, Min: 2}}
	var segs, polys, pairs [][]Con
	half := gridPts(4)
	for i, p := range half {
		for _, q := range half[:i] {
			if (p[0]+p[1]+q[0]+q[1])%2 == 1 { // every other one
				segs = append(segs, []Con{{"line", [][]P{{p, q}}}})
			}
			if p[0]%2 == 1 && q[0]%2 == 1 && p[1]%2 == 1 {
				pairs = append(pairs, []Con{{"point", [][]P{{p}}}, {"point", [][]P{{q}}}})
			}
		}
	}
	for x := int64(0); x < 4; x++ {
		for y := int64(0); y < 4; y++ {
			polys = append(polys,
				[]Con{{"polygon", [][]P{{{x, y}, {x + 1, y}, {x + 1, y + 1}, {x, y + 1}, {x, y}}}}},
				[]Con{{"polygon", [][]P{{{x, y}, {x + 1, y}, {x, y + 1}, {x, y}}}}})
		}
	}
	ring := []P{{0, 0}, {4, 0}, {4, 4}, {0, 4}, {0, 0}}
	polys = append(polys, []Con{{"polygon", [][]P{ring, {{1, 1}, {3, 1}, {3, 3}, {1, 3}, {1, 1}}}}},
		[]Con{{"polygon", [][]P{{{1, 0}, {3, 0}, {3, 4}, {1, 4}, {1, 0}}, {{2, 1}, {3, 2}, {2, 3}, {2, 1}}}}})
	cs := append(append(append(append([][]Con{}, onePoint(4)...), segs...), polys...), pairs...)
	worlds["enumcon"] = []*world{
		{g: 2, z: 2, sizes: []int{3}, first: gridPts(2), opts: rel, cons: cs},
		{g: 2, z: 2, sizes: []int{4}, first: gridPts(2), opts: rel[:3], cons: cs},
		{g: 2, z: 2, sizes: []int{5}, first: corner(2), opts: rel[:3], cons: onePoint(4)},
	}
	for name := range worlds {
		name := name
		recorders[name] = func(seed int64, idx int) (interface{}, int, []string) {
			r := execSimp(enumCase(name, seed, idx))
			return r, r.Intr, r.Susp
		}
		inputs[name] = func(seed int64, idx int) interface{} { return enumCase(name, seed, idx) }
	}
}

// WorldSize is the number of cases of a family, 0 when there is no end to them
func worldSize(fam string) int {
	n := 0
	for _, w := range worlds[fam] {
		n += w.size()
	}
	return n
}
