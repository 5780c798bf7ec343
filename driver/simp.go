package main

import "sort"

// SimpRec is a recorded simplification: the input and what the real code did at
// each observable step. Susp lists the properties the mirror doubts (routing only).
type SimpRec struct {
	*Case
	*Out
	Base    [][]R    `json:"base"`
	Plain   [][]R    `json:"plain"`
	PlainS  [][]int  `json:"plains"`
	Stage   [][]R    `json:"stage"`
	Susp    []string `json:"susp"`
	Intr    int      `json:"intr"`
	Kind    string   `json:"kind"`
	Outcome string   `json:"outcome"`
}

func execSimp(c *Case) *SimpRec {
	rec := &SimpRec{Case: c, Kind: "simp", Outcome: "returned", Susp: []string{}}
	rec.Base = c.base()
	rec.Plain, rec.PlainS = c.plain()
	rec.Stage = c.stage()
	rec.Out = c.run()
	rec.mirror()
	if watchAlgo && !rec.followsAlgo() {
		rec.Susp = append(rec.Susp, "C31")
	}
	return rec
}

// does anyone ask whether the procedure was followed
var watchAlgo = false

func (c *Case) maxOff2(l int, i, k, j int) (int64, int64) {
	a, b, p := c.Lines[l][i], c.Lines[l][j], c.Lines[l][k]
	if c.Mode == "sed" {
		dt := b[2] - a[2]
		ex := (p[0]-a[0])*dt - (b[0]-a[0])*(p[2]-a[2])
		ey := (p[1]-a[1])*dt - (b[1]-a[1])*(p[2]-a[2])
		return ex*ex + ey*ey, dt * dt
	}
	return ptSeg(P{p[0], p[1]}, P{a[0], a[1]}, P{b[0], b[1]})
}

// largest squared offset and the vertices that attain it
func (c *Case) argmax(l, i, j int) (int64, int64, []int) {
	var n, q int64 = 0, 1
	var ks []int
	for k := i + 1; k < j; k++ {
		a, b := c.maxOff2(l, i, k, j)
		if ratLess(n, q, a, b) {
			n, q, ks = a, b, []int{k}
		} else if !ratLess(a, b, n, q) {
			ks = append(ks, k)
		}
	}
	return n, q, ks
}

// may the largest offset come out above the threshold
func (c *Case) mayExceed(l, i, j int) bool {
	n, q, ks := c.argmax(l, i, j)
	t := c.Opt.T * c.Opt.T * q
	if n != t || c.Mode == "sed" {
		return n >= t
	}
	pts := c.pts(l)
	for _, k := range ks {
		if !exactDist(pts[k], pts[i], pts[j]) {
			return true
		}
	}
	return len(ks) == 0
}

func has(xs []int, v int) bool {
	i := sort.SearchInts(xs, v)
	return i < len(xs) && xs[i] == v
}

// mirror of the specification: doubts, never verdicts
func (rec *SimpRec) mirror() {
	c := rec.Case
	bad := map[string]bool{}
	T2 := c.Opt.T * c.Opt.T
	for l := range c.Lines {
		pts := c.pts(l)
		n := len(pts)
		rs := rec.Ranges[l]
		// C01
		at := 0
		var want []int
		for _, f := range rs {
			if f[0] != at || f[1] <= f[0] {
				bad["C01"] = true
				break
			}
			want = append(want, f[0])
			at = f[1]
		}
		want = append(want, at)
		if at != n-1 || !eqInts(want, rec.Simple[l]) {
			bad["C01"] = true
		}
		if bad["C01"] {
			rec.Susp = []string{"C01"}
			return
		}
		for k, f := range rs {
			if len(rec.Frags[l][k]) != f[1]-f[0]+1 {
				bad["C01"] = true
				continue
			}
			for i, p := range rec.Frags[l][k] {
				if p != c.Lines[l][f[0]+i] {
					bad["C01"] = true
				}
			}
		}
		// C02
		if !c.Big {
			for _, f := range rs {
				if a, b, _ := c.argmax(l, f[0], f[1]); a > T2*b {
					bad["C02"] = true
				}
			}
			if !c.exact(l, 0, n-1, rec.Plain[l]) || !c.exact(l, 0, n-1, rec.Base[l]) {
				bad["C03"] = true
			}
		}
		if len(rs) > 1 && len(rs) < n-1 {
			rec.Intr++
		}
		if len(rs) != len(rec.Base[l]) {
			rec.Intr++
		}
		// C04 C05 C06
		if c.Opt.Plan {
			for i := range pts {
				dup, shared := false, false
				for j := range pts {
					if j != i && pts[i] == pts[j] {
						dup = true
					}
				}
				if c.FC {
					for m := range c.Lines {
						if m != l {
							for _, q := range c.Lines[m] {
								if q[0] == pts[i][0] && q[1] == pts[i][1] {
									shared = true
								}
							}
						}
					}
				}
				if dup || shared {
					rec.Intr++
				}
				if dup && !has(rec.Simple[l], i) {
					bad["C04"] = true
				}
				if (dup || shared) && c.FC && !has(rec.Simple[l], i) {
					bad["C06"] = true
				}
			}
		}
		if c.Opt.NPlan {
			for i := 0; i+1 < n; i++ {
				for j := i + 1; j+1 < n; j++ {
					if crossesOffVertex(pts[i], pts[i+1], pts[j], pts[j+1]) {
						rec.Intr++
						for _, v := range []int{i, i + 1, j, j + 1} {
							if !has(rec.Simple[l], v) {
								bad["C05"] = true
							}
						}
					}
				}
			}
		}
		// C07
		if c.Opt.Avoid {
			for a := range rs {
				for b := a + 2; b < len(rs); b++ {
					if sharesEnd(pts, rs[a], rs[b]) {
						continue
					}
					if !c.pairOK(pts, rs[a], pts, rs[b]) {
						bad["C07"] = true
					}
				}
			}
			for a := 0; a+1 < len(rs); a++ {
				f, g := rs[a], rs[a+1]
				a, m, z := pts[f[0]], pts[f[1]], pts[g[1]]
				if a != z && (m != z && strictlyInHull(z, pts[f[0]:f[1]+1]) || a != m && strictlyInHull(a, pts[g[0]:g[1]+1])) {
					bad["C30"] = true
				}
			}
		}
		// C09 - C11
		for _, f := range rs {
			sub := pts[f[0] : f[1]+1]
			if len(sub) == 2 {
				continue
			}
			var obs []P
			for k := range c.Cons {
				k := &c.Cons[k]
				x, y := segCon(sub[0], sub[len(sub)-1], k), lineCon(sub, k)
				if x || y {
					rec.Intr++
				}
				if x != y && c.Opt.Geom {
					bad["C09"] = true
				}
				if x != y && c.Opt.Dir {
					bad["C11"] = true
				}
				if !x && !y {
					obs = append(obs, k.Parts[0][0])
				}
				if c.Opt.Dist && !c.Big {
					m2 := c.Opt.Min * c.Opt.Min
					n1, q1 := lineConDist(sub, k)
					n2, q2 := segConDist(sub[0], sub[len(sub)-1], k)
					if n2 < m2*q2 && n1 >= m2*q1 && !lineConMayLt(sub, k, m2) {
						bad["C10"] = true
					}
				}
			}
			if c.Opt.Dir && !eqInts(crossWord(sub, obs), crossWord([]P{sub[0], sub[len(sub)-1]}, obs)) {
				bad["C11"] = true
			}
		}
	}
	// C08
	if c.FC && c.Opt.Avoid {
		for l := range c.Lines {
			for m := l + 1; m < len(c.Lines); m++ {
				pl, pm := c.pts(l), c.pts(m)
				for _, f := range rec.Ranges[l] {
					for _, g := range rec.Ranges[m] {
						if !c.pairOK(pl, f, pm, g) {
							bad["C08"] = true
						}
					}
				}
			}
		}
	}
	for k := range bad {
		rec.Susp = append(rec.Susp, k)
	}
	sort.Strings(rec.Susp)
}

func sharesEnd(p []P, f, g R) bool {
	return p[f[0]] == p[g[0]] || p[f[0]] == p[g[1]] || p[f[1]] == p[g[0]] || p[f[1]] == p[g[1]]
}

func (c *Case) pairOK(pl []P, f R, pm []P, g R) bool {
	s := segInter(pl[f[0]], pl[f[1]], pm[g[0]], pm[g[1]])
	o := lineInter(pl[f[0]:f[1]+1], pm[g[0]:g[1]+1])
	if s != o {
		return false
	}
	if s && !c.Big && c.Opt.Disp < 400 { // displacement, coarse
		x, y := interPt(pl[f[0]], pl[f[1]], pm[g[0]], pm[g[1]])
		for i := f[0]; i < f[1]; i++ {
			for j := g[0]; j < g[1]; j++ {
				if segInter(pl[i], pl[i+1], pm[j], pm[j+1]) {
					u, v := interPt(pl[i], pl[i+1], pm[j], pm[j+1])
					d := float64(c.Opt.Disp) + 0.01
					if (u-x)*(u-x)+(v-y)*(v-y) > d*d {
						return false
					}
				}
			}
		}
	}
	return true
}

func interPt(a, b, c, d P) (float64, float64) {
	den := float64((b[0]-a[0])*(d[1]-c[1]) - (b[1]-a[1])*(d[0]-c[0]))
	t := float64((c[0]-a[0])*(d[1]-c[1])-(c[1]-a[1])*(d[0]-c[0])) / den
	return float64(a[0]) + t*float64(b[0]-a[0]), float64(a[1]) + t*float64(b[1]-a[1])
}

// the segments share a point that is not an end point of both
func crossesOffVertex(a, b, c, d P) bool {
	if proper(a, b, c, d) {
		return true
	}
	for _, v := range []P{a, b} {
		if v != c && v != d && onSeg(v, c, d) {
			return true
		}
	}
	for _, v := range []P{c, d} {
		if v != a && v != b && onSeg(v, a, b) {
			return true
		}
	}
	return false
}

// is the partition rs of [i,j] one the Douglas-Peucker recursion can produce
func (c *Case) exact(l, i, j int, rs []R) bool {
	whole, cut := map[R]bool{}, map[int]bool{}
	for _, f := range rs {
		whole[f] = true
		cut[f[0]], cut[f[1]] = true, true
	}
	return c.decide(l, R{i, j}, whole, cut, map[R]bool{})
}

func (c *Case) decide(l int, f R, whole map[R]bool, cut map[int]bool, known map[R]bool) bool {
	if v, ok := known[f]; ok {
		return v
	}
	n, q, ks := c.argmax(l, f[0], f[1])
	T2 := c.Opt.T * c.Opt.T
	v := false
	switch {
	case whole[f]:
		v = f[1] == f[0]+1 || n <= T2*q
	case f[1] == f[0]+1 || !c.mayExceed(l, f[0], f[1]):
	default:
		for _, k := range ks {
			if cut[k] && c.decide(l, R{f[0], k}, whole, cut, known) && c.decide(l, R{k, f[1]}, whole, cut, known) {
				v = true
				break
			}
		}
	}
	known[f] = v
	return v
}
