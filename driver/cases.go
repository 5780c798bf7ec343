package main

import (
	"math/rand"
)

// Opt are the simplification options of a case; every number is an integer in grid units.
type Opt struct {
	T     int64 `json:"T"`
	Min   int64 `json:"min"`
	Disp  int64 `json:"disp"`
	Plan  bool  `json:"plan"`
	NPlan bool  `json:"nplan"`
	Avoid bool  `json:"avoid"`
	Geom  bool  `json:"geom"`
	Dist  bool  `json:"dist"`
	Dir   bool  `json:"dir"`
}

// Case is one input to the simplifier.
type Case struct {
	Fam   string       `json:"fam"`
	Seed  int64        `json:"seed"`
	Idx   int          `json:"idx"`
	Big   bool         `json:"big"`
	Lines [][][3]int64 `json:"lines"` // x, y, t
	Cons  []Con        `json:"cons"`
	Opt   Opt          `json:"opt"`
	Mode  string       `json:"mode"` // dp | sed
	Sq    bool         `json:"sq"`
	FC    bool         `json:"fc"`
	Tx    int64        `json:"tx"` // the real run uses x*2^Sc + Tx
	Ty    int64        `json:"ty"`
	Sc    int          `json:"sc"`
}

func (c *Case) pts(l int) []P {
	out := make([]P, len(c.Lines[l]))
	for i, p := range c.Lines[l] {
		out[i] = P{p[0], p[1]}
	}
	return out
}

func rndLine(r *rand.Rand, style int, n int, g int64) []P {
	out := make([]P, 0, n)
	rp := func() P { return P{r.Int63n(g + 1), r.Int63n(g + 1)} }
	switch style {
	case 0: // uniform random points
		for len(out) < n {
			p := rp()
			if len(out) > 0 && out[len(out)-1] == p {
				continue
			}
			out = append(out, p)
		}
	case 1: // random walk, short steps
		p := rp()
		out = append(out, p)
		s := 1 + g/6
		for len(out) < n {
			q := P{p[0] + r.Int63n(2*s+1) - s, p[1] + r.Int63n(2*s+1) - s}
			if q == p || q[0] < 0 || q[1] < 0 || q[0] > g || q[1] > g {
				continue
			}
			p = q
			out = append(out, p)
		}
	case 2: // x-monotone zigzag
		for i := 0; i < n; i++ {
			out = append(out, P{int64(i) * g / int64(n), r.Int63n(g + 1)})
		}
	case 3: // spiral
		cx, cy := g/2, g/2
		dx := []int64{1, 0, -1, 0}
		dy := []int64{0, 1, 0, -1}
		p := P{cx, cy}
		out = append(out, p)
		step := int64(1 + r.Int63n(2))
		for i := 0; len(out) < n; i++ {
			l := step * int64(1+i/2)
			p = P{p[0] + dx[i%4]*l, p[1] + dy[i%4]*l}
			jx := P{clamp(p[0]+r.Int63n(3)-1, 0, g), clamp(p[1]+r.Int63n(3)-1, 0, g)}
			if jx != out[len(out)-1] {
				out = append(out, jx)
			} else {
				break
			}
		}
	case 4: // ring
		out = starPoly(r, n-1, g)
		out = append(out, out[0])
	}
	return out
}

func clamp(x, a, b int64) int64 {
	if x < a {
		return a
	}
	if x > b {
		return b
	}
	return x
}

// random simple polygon around the centre
func starPoly(r *rand.Rand, n int, g int64) []P {
	c := P{g / 2, g / 2}
	seen := map[P]bool{c: true}
	var pts []P
	for try := 0; len(pts) < n && try < 50*n+200; try++ {
		p := P{r.Int63n(g + 1), r.Int63n(g + 1)}
		if seen[p] {
			continue
		}
		ok := true
		for _, q := range pts { // no two on the same ray
			if cross(c, p, q) == 0 && dot(c, p, c, q) > 0 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		seen[p] = true
		pts = append(pts, p)
	}
	half := func(p P) int {
		if p[1] > c[1] || (p[1] == c[1] && p[0] > c[0]) {
			return 0
		}
		return 1
	}
	for i := range pts {
		for j := i + 1; j < len(pts); j++ {
			a, b := pts[i], pts[j]
			if half(b) < half(a) || (half(a) == half(b) && cross(c, b, a) > 0) {
				pts[i], pts[j] = pts[j], pts[i]
			}
		}
	}
	return pts
}

// no two non-adjacent segments touch, adjacent ones only at the joint
func simpleLine(l []P) bool {
	for i := 0; i+1 < len(l); i++ {
		for j := i + 1; j+1 < len(l); j++ {
			if j == i+1 {
				if onSeg(l[j+1], l[i], l[i+1]) || onSeg(l[i], l[j], l[j+1]) {
					return false
				}
				continue
			}
			if segInter(l[i], l[i+1], l[j], l[j+1]) {
				return false
			}
		}
	}
	return true
}

// no three of the points are collinear and no two coincide
func generalPos(ps []P) bool {
	for i := range ps {
		for j := i + 1; j < len(ps); j++ {
			if ps[i] == ps[j] {
				return false
			}
			for k := j + 1; k < len(ps); k++ {
				if cross(ps[i], ps[j], ps[k]) == 0 {
					return false
				}
			}
		}
	}
	return true
}

// remove crossings by 2-opt reversals; returns a simple line when it succeeds
func untangle(l []P) []P {
	l = append([]P{}, l...)
	for it := 0; it < 200; it++ {
		done := true
	scan:
		for i := 0; i+1 < len(l); i++ {
			for j := i + 2; j+1 < len(l); j++ {
				if segInter(l[i], l[i+1], l[j], l[j+1]) {
					for a, b := i+1, j; a < b; a, b = a+1, b-1 {
						l[a], l[b] = l[b], l[a]
					}
					done = false
					break scan
				}
			}
		}
		if done {
			break
		}
	}
	return l
}
