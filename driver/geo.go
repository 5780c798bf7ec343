package main

import "sort"

// Exact integer geometry: a mirror of Geo.tla used only to route cases
// (to pick which recorded behaviours TLC judges), never for a verdict.

type P [2]int64

func cross(a, b, c P) int64 {
	return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])
}
func sgn(x int64) int {
	if x > 0 {
		return 1
	} else if x < 0 {
		return -1
	}
	return 0
}
func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}
func d2(a, b P) int64 {
	return (a[0]-b[0])*(a[0]-b[0]) + (a[1]-b[1])*(a[1]-b[1])
}
func dot(a, b, c, d P) int64 { // (b-a).(d-c)
	return (b[0]-a[0])*(d[0]-c[0]) + (b[1]-a[1])*(d[1]-c[1])
}
func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
func onSeg(p, a, b P) bool {
	return cross(a, b, p) == 0 &&
		min64(a[0], b[0]) <= p[0] && p[0] <= max64(a[0], b[0]) &&
		min64(a[1], b[1]) <= p[1] && p[1] <= max64(a[1], b[1])
}

// closed segments share a point
func segInter(a, b, c, d P) bool {
	o1, o2 := sgn(cross(a, b, c)), sgn(cross(a, b, d))
	o3, o4 := sgn(cross(c, d, a)), sgn(cross(c, d, b))
	if o1*o2 < 0 && o3*o4 < 0 {
		return true
	}
	return onSeg(c, a, b) || onSeg(d, a, b) || onSeg(a, c, d) || onSeg(b, c, d)
}

// interiors cross transversally
func proper(a, b, c, d P) bool {
	return sgn(cross(a, b, c))*sgn(cross(a, b, d)) < 0 && sgn(cross(c, d, a))*sgn(cross(c, d, b)) < 0
}

func lineInter(l, m []P) bool {
	for i := 0; i+1 < len(l); i++ {
		for j := 0; j+1 < len(m); j++ {
			if segInter(l[i], l[i+1], m[j], m[j+1]) {
				return true
			}
		}
	}
	return false
}

// squared distance point-segment as a rational num/den
func ptSeg(p, a, b P) (int64, int64) {
	l := d2(a, b)
	if l == 0 {
		return d2(p, a), 1
	}
	t := dot(a, b, a, p)
	if t <= 0 {
		return d2(p, a), 1
	}
	if t >= l {
		return d2(p, b), 1
	}
	c := cross(a, b, p)
	return c * c, l
}

func ratLess(n1, q1, n2, q2 int64) bool { return n1*q2 < n2*q1 }

func segSeg(a, b, c, d P) (int64, int64) {
	if segInter(a, b, c, d) {
		return 0, 1
	}
	n, q := ptSeg(a, c, d)
	for _, t := range [][3]P{{b, c, d}, {c, a, b}, {d, a, b}} {
		m, r := ptSeg(t[0], t[1], t[2])
		if ratLess(m, r, n, q) {
			n, q = m, r
		}
	}
	return n, q
}

// point strictly inside (1), on boundary (0), outside (-1) ring (closed or not)
func inRing(p P, r []P) int {
	n := len(r)
	in := false
	for i := 0; i < n; i++ {
		a, b := r[i], r[(i+1)%n]
		if onSeg(p, a, b) {
			return 0
		}
		if (a[1] > p[1]) != (b[1] > p[1]) {
			c := cross(a, b, p)
			if (b[1] > a[1]) == (c > 0) {
				in = !in
			}
		}
	}
	if in {
		return 1
	}
	return -1
}

// constraint geometry
type Con struct {
	Type  string `json:"type"` // point line polygon
	Parts [][]P  `json:"parts"`
}

func closeRing(r []P) []P {
	if len(r) > 0 && r[0] != r[len(r)-1] {
		return append(append([]P{}, r...), r[0])
	}
	return r
}

// distance zero / intersection of closed segment with constraint (polygon is area with holes)
func segCon(a, b P, c *Con) bool {
	switch c.Type {
	case "point":
		return onSeg(c.Parts[0][0], a, b)
	case "line":
		return lineInter([]P{a, b}, c.Parts[0])
	}
	for _, r := range c.Parts {
		if lineInter([]P{a, b}, closeRing(r)) {
			return true
		}
	}
	if inRing(a, c.Parts[0]) < 0 {
		return false
	}
	for _, h := range c.Parts[1:] {
		if inRing(a, h) > 0 {
			return false
		}
	}
	return true
}

func lineCon(l []P, c *Con) bool {
	for i := 0; i+1 < len(l); i++ {
		if segCon(l[i], l[i+1], c) {
			return true
		}
	}
	return false
}

func segConDist(a, b P, c *Con) (int64, int64) {
	if segCon(a, b, c) {
		return 0, 1
	}
	if c.Type == "point" {
		return ptSeg(c.Parts[0][0], a, b)
	}
	var n, q int64 = -1, 1
	for _, r := range c.Parts {
		if c.Type == "polygon" {
			r = closeRing(r)
		}
		for i := 0; i+1 < len(r); i++ {
			m, s := segSeg(a, b, r[i], r[i+1])
			if n < 0 || ratLess(m, s, n, q) {
				n, q = m, s
			}
		}
	}
	return n, q
}

func lineConDist(l []P, c *Con) (int64, int64) {
	var n, q int64 = -1, 1
	for i := 0; i+1 < len(l); i++ {
		m, s := segConDist(l[i], l[i+1], c)
		if n < 0 || ratLess(m, s, n, q) {
			n, q = m, s
		}
	}
	return n, q
}
func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// inside the convex hull of l and not on its boundary
func strictlyInHull(p P, l []P) bool {
	if len(l) < 3 {
		return false
	}
	in := false
	for i := range l {
		for j := range l {
			edge, flat := l[i] != l[j], true
			for k := 0; k < len(l) && edge; k++ {
				x := cross(l[i], l[j], l[k])
				edge, flat = x >= 0, flat && x == 0
			}
			if !edge {
				continue
			}
			if flat || cross(l[i], l[j], p) <= 0 {
				return false
			}
			in = true
		}
	}
	return in
}

// the corners of the convex hull of l, counter clockwise (two or one if l is flat)
func corners(l []P) []P {
	ps := append([]P{}, l...)
	sort.Slice(ps, func(i, j int) bool { return ps[i][0] < ps[j][0] || ps[i][0] == ps[j][0] && ps[i][1] < ps[j][1] })
	var out []P
	for pass := 0; pass < 2; pass++ {
		n := len(out)
		for _, p := range ps {
			for len(out) >= n+2 && cross(out[len(out)-2], out[len(out)-1], p) <= 0 {
				out = out[:len(out)-1]
			}
			out = append(out, p)
		}
		out = out[:len(out)-1]
		for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
			ps[i], ps[j] = ps[j], ps[i]
		}
	}
	return out
}

// in a convex ring of corners, or on it
func inConvex(p P, h []P) bool {
	for i := range h {
		if cross(h[i], h[(i+1)%len(h)], p) < 0 {
			return false
		}
	}
	return len(h) > 2 || len(h) == 2 && onSeg(p, h[0], h[1])
}

// the distance is a difference of coordinates (see ExactDist in Geo.tla)
func exactDist(p, a, b P) bool {
	l, t := d2(a, b), dot(a, b, a, p)
	switch {
	case p == a || p == b:
		return true
	case l == 0 || t <= 0:
		return p[0] == a[0] || p[1] == a[1]
	case t >= l:
		return p[0] == b[0] || p[1] == b[1]
	}
	return (a[0] == b[0] && p[0] != a[0]) || (a[1] == b[1] && p[1] != a[1])
}

// may the distance from the constraint come out smaller than the root of m2
func segConMayLt(a, b P, c *Con, m2 int64) bool {
	may := func(p, a, b P) bool {
		n, q := ptSeg(p, a, b)
		return n < m2*q || (n == m2*q && !exactDist(p, a, b))
	}
	if m2 == 0 {
		return false
	}
	if c.Type == "point" {
		return may(c.Parts[0][0], a, b)
	}
	if segCon(a, b, c) {
		return true
	}
	for _, r := range c.Parts {
		if c.Type == "polygon" {
			r = closeRing(r)
		}
		for i := 0; i+1 < len(r); i++ {
			if may(a, r[i], r[i+1]) || may(b, r[i], r[i+1]) || may(r[i], a, b) || may(r[i+1], a, b) {
				return true
			}
		}
	}
	return false
}
func lineConMayLt(l []P, c *Con, m2 int64) bool {
	for i := 0; i+1 < len(l); i++ {
		if segConMayLt(l[i], l[i+1], c, m2) {
			return true
		}
	}
	return false
}
