package main

import (
	"hash/fnv"
	"math/rand"
	"strings"
)

// every case is a function of (family, seed, index)
func rng4(fam string, seed int64, idx int) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(fam))
	return rand.New(rand.NewSource(int64(h.Sum64()>>1) ^ (seed * 1000003) ^ (int64(idx) * 7919 * 104729)))
}

func to3(l []P) [][3]int64 {
	out := make([][3]int64, len(l))
	for i, p := range l {
		out[i] = [3]int64{p[0], p[1], int64(i)}
	}
	return out
}

func timed(r *rand.Rand, l []P) [][3]int64 {
	out := make([][3]int64, len(l))
	t := r.Int63n(3)
	for i, p := range l {
		out[i] = [3]int64{p[0], p[1], t}
		if len(l) < 25 {
			t += 1 + r.Int63n(3)
		} else {
			t++
		}
	}
	return out
}

func pick(r *rand.Rand, xs ...int64) int64 { return xs[r.Intn(len(xs))] }
func flip(r *rand.Rand) bool               { return r.Intn(2) == 0 }
func oneIn(r *rand.Rand, n int) bool       { return r.Intn(n) == 0 }

// below n, rarely below most
func large(r *rand.Rand, n, most int) int {
	if oneIn(r, 16) {
		return r.Intn(most)
	}
	return r.Intn(n)
}

// a length: mostly small, sometimes medium, rarely large
func rlen(r *rand.Rand, lo, mid, hi int) int {
	switch k := r.Intn(20); {
	case k < 13:
		return lo + r.Intn(mid-lo+1)
	case k < 19:
		return lo + r.Intn(mid+mid/2-lo+1)
	default:
		return mid + r.Intn(hi-mid+1)
	}
}

// a triangular wave between -1 and 1 with k periods over n steps
func wave(i, n, k int) float64 {
	x := float64(i*k%n) / float64(n)
	if x > 0.5 {
		x = 1 - x
	}
	return 4*x - 1
}

// simple line (no self-intersections), optionally in general position
func genSimple(r *rand.Rand, gp bool, nmin, nmax int, g int64, styles int) []P {
	for try := 0; ; try++ {
		if try > 40 {
			nmax = nmin + (nmax-nmin)*3/4
			try = 0
		}
		n := nmin
		if nmax > nmin {
			n += r.Intn(nmax - nmin + 1)
		}
		l := rndLine(r, r.Intn(styles), n, g)
		l = untangle(l)
		if len(l) >= nmin && simpleLine(l) && (!gp || generalPos(l)) {
			return l
		}
	}
}

// any line in general position (may cross itself)
func genGP(r *rand.Rand, nmin, nmax int, g int64) []P {
	for {
		n := nmin
		if nmax > nmin {
			n += r.Intn(nmax - nmin + 1)
		}
		l := rndLine(r, r.Intn(3), n, g)
		// drop points that break general position
		var o []P
		for _, p := range l {
			if generalPos(append(append([]P{}, o...), p)) {
				o = append(o, p)
			}
		}
		if len(o) >= nmin {
			return o
		}
	}
}

// line with repeated locations: vertices come from a small pool
func genLoopy(r *rand.Rand, n int, g int64) []P {
	k := 2 + r.Intn(n)
	pool := make([]P, k)
	for i := range pool {
		pool[i] = P{r.Int63n(g + 1), r.Int63n(g + 1)}
	}
	var l []P
	for len(l) < n {
		p := pool[r.Intn(k)]
		if oneIn(r, 3) {
			p = P{r.Int63n(g + 1), r.Int63n(g + 1)}
		}
		if len(l) > 0 && l[len(l)-1] == p {
			if !oneIn(r, 4) {
				p = P{r.Int63n(g + 1), r.Int63n(g + 1)}
			}
		}
		l = append(l, p)
	}
	if oneIn(r, 4) {
		l = append(l, l[0])
	}
	return l
}

// line with collinear runs, back-tracking and repeated vertices
func genDegen(r *rand.Rand, n int, g int64) []P {
	var l []P
	p := P{r.Int63n(g + 1), r.Int63n(g + 1)}
	l = append(l, p)
	for len(l) < n {
		switch r.Intn(7) {
		case 0: // repeat
			l = append(l, l[len(l)-1])
		case 1: // back to an earlier vertex
			l = append(l, l[r.Intn(len(l))])
		case 2, 3: // continue in the last direction
			if len(l) > 1 {
				a, b := l[len(l)-2], l[len(l)-1]
				k := r.Int63n(4) - 1
				l = append(l, P{b[0] + k*(b[0]-a[0]), b[1] + k*(b[1]-a[1])})
			}
		case 4: // axis step
			q := l[len(l)-1]
			if flip(r) {
				q[0] += r.Int63n(7) - 3
			} else {
				q[1] += r.Int63n(7) - 3
			}
			l = append(l, q)
		default:
			l = append(l, P{r.Int63n(g + 1), r.Int63n(g + 1)})
		}
		q := &l[len(l)-1]
		q[0], q[1] = clamp(q[0], 0, g), clamp(q[1], 0, g)
	}
	return l
}

func anyLine(r *rand.Rand, n int, g int64) []P {
	switch r.Intn(6) {
	case 0:
		return genLoopy(r, n, g)
	case 1:
		return genDegen(r, n, g)
	case 2:
		if n < 30 {
			return genSimple(r, false, 2, n, g, 5)
		}
	}
	if n < 4 {
		return rndLine(r, r.Intn(3), n, g)
	}
	return rndLine(r, r.Intn(5), n, g)
}

// a simple polygon ring (closed), size about s, at an offset within [0,g]
func genRing(r *rand.Rand, s, g int64) []P {
	for {
		l := starPoly(r, 3+r.Intn(4), s)
		c := closeRing(l)
		if len(c) > 3 && ringSimple(c) {
			dx, dy := int64(0), int64(0)
			if g > s {
				dx, dy = r.Int63n(g-s+1), r.Int63n(g-s+1)
			}
			for i := range c {
				c[i][0] += dx
				c[i][1] += dy
			}
			return c
		}
	}
}

func ringSimple(c []P) bool {
	for i := 0; i+1 < len(c); i++ {
		for j := i + 1; j+1 < len(c); j++ {
			switch {
			case j == i+1:
				if onSeg(c[j+1], c[i], c[i+1]) || onSeg(c[i], c[j], c[j+1]) {
					return false
				}
			case i == 0 && j+2 == len(c):
				if onSeg(c[i+1], c[j], c[j+1]) || onSeg(c[j], c[i], c[i+1]) {
					return false
				}
			default:
				if segInter(c[i], c[i+1], c[j], c[j+1]) {
					return false
				}
			}
		}
	}
	return true
}

// convex ring
func genRect(r *rand.Rand, s, g int64) []P {
	x, y := r.Int63n(g-s+1), r.Int63n(g-s+1)
	w, h := 1+r.Int63n(s), 1+r.Int63n(s)
	return []P{{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}, {x, y}}
}

func genCon(r *rand.Rand, g int64) Con {
	switch r.Intn(7) {
	case 0, 1, 2:
		return Con{"point", [][]P{{P{r.Int63n(g + 1), r.Int63n(g + 1)}}}}
	case 3, 4:
		return Con{"line", [][]P{genSimple(r, false, 2, 4, max64(2, g/3+1), 2)}}.shift(r, g)
	case 5:
		s := 2 + r.Int63n(max64(1, g/3))
		return Con{"polygon", [][]P{genRing(r, s, g)}}
	}
	s := 2 + r.Int63n(max64(1, g/2))
	sh := genRect(r, s, g)
	c := Con{"polygon", [][]P{sh}}
	x0, y0, x1, y1 := sh[0][0], sh[0][1], sh[2][0], sh[2][1]
	if x1-x0 >= 3 && y1-y0 >= 3 { // with a hole
		c.Parts = append(c.Parts, []P{{x0 + 1, y0 + 1}, {x0 + 1, y1 - 1}, {x1 - 1, y1 - 1}, {x1 - 1, y0 + 1}, {x0 + 1, y0 + 1}})
	}
	return c
}

func (c Con) shift(r *rand.Rand, g int64) Con {
	var mx, my int64
	for _, p := range c.Parts[0] {
		mx, my = max64(mx, p[0]), max64(my, p[1])
	}
	dx, dy := r.Int63n(g-mx+1), r.Int63n(g-my+1)
	for _, pt := range c.Parts {
		for i := range pt {
			pt[i][0] += dx
			pt[i][1] += dy
		}
	}
	return c
}

// a constraint next to the line: point on/near a vertex or edge, or a small shape there
func genConNear(r *rand.Rand, l []P, g int64) Con {
	p := l[r.Intn(len(l))]
	if flip(r) {
		q := l[r.Intn(len(l))]
		p = P{(p[0] + q[0]) / 2, (p[1] + q[1]) / 2}
	}
	if !oneIn(r, 4) {
		p[0] += r.Int63n(5) - 2
		p[1] += r.Int63n(5) - 2
	}
	p[0], p[1] = clamp(p[0], 0, g), clamp(p[1], 0, g)
	switch r.Intn(4) {
	case 0:
		return Con{"line", [][]P{{p, P{clamp(p[0]+r.Int63n(9)-4, 0, g), clamp(p[1]+1+r.Int63n(4), 0, g+4)}}}}
	case 1:
		return Con{"polygon", [][]P{{p, {p[0] + 1 + r.Int63n(3), p[1]}, {p[0] + r.Int63n(2), p[1] + 1 + r.Int63n(3)}, p}}}
	}
	return Con{"point", [][]P{{p}}}
}

// collinear point constraints (degenerate boxes inside the index), optionally many
func genConRow(r *rand.Rand, g int64) []Con {
	var out []Con
	k := r.Int63n(g + 1)
	n := 6 + r.Intn(14)
	for i := 0; i < n; i++ {
		p := P{k, r.Int63n(g + 1)}
		out = append(out, Con{"point", [][]P{{p}}})
	}
	if flip(r) {
		for i := range out {
			q := out[i].Parts[0][0]
			out[i].Parts[0][0] = P{q[1], q[0]}
		}
	}
	return out
}

// a polygon around a stretch of the line: the stretch lies in its hole, perhaps touching the inner edge
func genConAround(r *rand.Rand, l []P) Con {
	i := r.Intn(len(l))
	j := i + r.Intn(len(l)-i)
	if oneIn(r, 3) {
		i, j = 0, len(l)-1
	}
	a, b := l[i], l[i]
	for _, p := range l[i : j+1] {
		a[0], a[1], b[0], b[1] = min64(a[0], p[0]), min64(a[1], p[1]), max64(b[0], p[0]), max64(b[1], p[1])
	}
	gap := int64(2) // between the stretch and the inner edge
	if oneIn(r, 3) {
		gap = 8
	}
	a[0], a[1] = a[0]-r.Int63n(gap), a[1]-r.Int63n(gap)
	b[0], b[1] = b[0]+r.Int63n(gap), b[1]+r.Int63n(gap)
	if a[0] == b[0] {
		b[0]++
	}
	if a[1] == b[1] {
		b[1]++
	}
	w := 1 + r.Int63n(4)
	var inner = []P{a, {a[0], b[1]}, b, {b[0], a[1]}, a}
	if b[0]-a[0] > 1 && b[1]-a[1] > 1 && oneIn(r, 2) { // a side of the hole with a spike towards the line
		s := P{a[0] + 1 + r.Int63n(b[0]-a[0]-1), a[1] + 1 + r.Int63n(b[1]-a[1]-1)}
		k := 1 + r.Intn(4)
		inner = append(inner[:k], append([]P{s}, inner[k:]...)...)
	}
	return Con{"polygon", [][]P{
		{{a[0] - w, a[1] - w}, {b[0] + w, a[1] - w}, {b[0] + w, b[1] + w}, {a[0] - w, b[1] + w}, {a[0] - w, a[1] - w}},
		inner}}
}

// a bulge, and a constraint closer to its chord than to the bulge: the tip of a hole's spike, or something small
func genBulge(r *rand.Rand, g int64) ([]P, Con) {
	w := max64(8, g)
	n := 3 + r.Intn(6)
	m := 2 + r.Int63n(4)
	var l []P
	for i := 0; i < n; i++ {
		y := m + r.Int63n(w/2+1)
		if i == 0 || i == n-1 {
			y = r.Int63n(2)
		}
		l = append(l, P{int64(i) * w / int64(n-1), y})
	}
	tip := P{1 + r.Int63n(w-1), -1 - r.Int63n(3)}
	var c Con
	switch r.Intn(4) {
	case 0:
		c = Con{"point", [][]P{{tip}}}
	case 1:
		c = Con{"line", [][]P{{{tip[0] - r.Int63n(3), tip[1] - 3}, tip, {tip[0] + r.Int63n(3), tip[1] - 4}}}}
	default:
		a, b := P{-3 - r.Int63n(8), tip[1] - 3 - r.Int63n(6)}, P{w + 3 + r.Int63n(8), w + m + r.Int63n(5)}
		k := 1 + r.Int63n(4)
		c = Con{"polygon", [][]P{
			{{a[0] - k, a[1] - k}, {b[0] + k, a[1] - k}, {b[0] + k, b[1] + k}, {a[0] - k, b[1] + k}, {a[0] - k, a[1] - k}},
			{a, {a[0], b[1]}, b, {b[0], a[1]}, tip, a}}}
	}
	if flip(r) { // on its side
		for i := range l {
			l[i][0], l[i][1] = l[i][1], l[i][0]
		}
		for i := range c.Parts {
			for j := range c.Parts[i] {
				c.Parts[i][j][0], c.Parts[i][j][1] = c.Parts[i][j][1], c.Parts[i][j][0]
			}
		}
	}
	if flip(r) { // backwards
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	return l, c
}

// many constraints that are of no concern (points in the box of the line and outside its hull), and few others
func genConCrowd(r *rand.Rand, l []P, g int64) []Con {
	var out []Con
	a, b := l[0], l[0]
	for _, p := range l {
		a[0], a[1], b[0], b[1] = min64(a[0], p[0]), min64(a[1], p[1]), max64(b[0], p[0]), max64(b[1], p[1])
	}
	h := corners(l)
	for k := 10 + r.Intn(60); k > 0; k-- {
		p := P{a[0] + r.Int63n(b[0]-a[0]+1), a[1] + r.Int63n(b[1]-a[1]+1)}
		if !inConvex(p, h) {
			out = append(out, Con{"point", [][]P{{p}}})
		}
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		c := genConNear(r, l, g)
		if len(out) > 24 {
			out = out[:24]
		}
		out = append(out, c)
		if n := len(out); oneIn(r, 3) {
			i := r.Intn(n)
			out[i], out[n-1] = out[n-1], out[i]
		}
	}
	return out
}

func genCons(r *rand.Rand, l []P, g int64) []Con {
	var out []Con
	if oneIn(r, 12) {
		return genConCrowd(r, l, g)
	}
	if oneIn(r, 10) {
		out = append(out, genConAround(r, l))
	}
	if oneIn(r, 8) {
		return genConRow(r, g)
	}
	n := r.Intn(5)
	if oneIn(r, 5) {
		n = 6 + r.Intn(25)
	}
	for k := 0; k <= n; k++ {
		if flip(r) {
			out = append(out, genConNear(r, l, g))
		} else {
			out = append(out, genCon(r, g))
		}
	}
	return out
}

func (c *Case) embed(r *rand.Rand) {
	switch r.Intn(5) {
	case 0:
		c.Tx, c.Ty = r.Int63n(200001)-100000, r.Int63n(200001)-100000
	case 1:
		c.Sc = r.Intn(7) - 3
	case 2:
		c.Tx, c.Ty = -r.Int63n(200), -r.Int63n(200)
		c.Sc = r.Intn(7) - 3
	}
}

func (c *Case) setLines(r *rand.Rand, ls ...[]P) {
	for _, l := range ls {
		for len(l) < 2 {
			l = append(l, P{r.Int63n(4), r.Int63n(4)})
		}
		c.Lines = append(c.Lines, timed(r, l))
	}
}

func rndMode(r *rand.Rand) string {
	if oneIn(r, 3) {
		return "sed"
	}
	return "dp"
}

func rndT(r *rand.Rand, g int64) int64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return r.Int63n(3)
	case 2:
		return g
	}
	return 1 + r.Int63n(max64(1, g/2))
}

func rndRel(r *rand.Rand, o *Opt, g int64) {
	for !o.Geom && !o.Dist && !o.Dir {
		o.Geom, o.Dist, o.Dir = flip(r), flip(r), flip(r)
	}
	o.Min = r.Int63n(max64(2, g/4))
	if oneIn(r, 4) {
		o.Min = 0
	}
}

func rndAll(r *rand.Rand, o *Opt, g int64) {
	o.Plan, o.NPlan, o.Avoid = flip(r), flip(r), flip(r)
	o.Geom, o.Dist, o.Dir = oneIn(r, 3), oneIn(r, 3), oneIn(r, 3)
	o.Min = r.Int63n(max64(2, g/4))
	o.Disp = pick(r, 0, 1, 3, g, 4*g)
}

var families = map[string]func(r *rand.Rand) *Case{
	// no constraint switched on
	"dp": func(r *rand.Rand) *Case {
		g := pick(r, 5, 10, 30, 100)
		c := &Case{Mode: rndMode(r), Sq: flip(r)}
		n := rlen(r, 2, 16, 120)
		c.setLines(r, anyLine(r, n, g))
		c.Opt.T = rndT(r, g)
		c.Opt.Disp = r.Int63n(4)
		c.Opt.Min = r.Int63n(4)
		c.embed(r)
		return c
	},
	// aggregation: lines with many single-segment fragments
	"agg": func(r *rand.Rand) *Case {
		g := pick(r, 6, 12, 30, 60)
		c := &Case{Mode: rndMode(r), Sq: flip(r)}
		n := rlen(r, 3, 20, 90)
		switch r.Intn(3) {
		case 0:
			c.setLines(r, anyLine(r, n, g))
		case 1: // spikes on a gentle curve
			var l []P
			for i := 0; i < n; i++ {
				y := g / 3
				if oneIn(r, 3) {
					y = r.Int63n(g + 1)
				} else {
					y += r.Int63n(3)
				}
				l = append(l, P{clamp(int64(i)*g/int64(n)+r.Int63n(2), 0, g), clamp(y, 0, g)})
			}
			c.setLines(r, l)
		default:
			c.setLines(r, genSimple(r, false, 3, imin(n, 25), g, 3))
		}
		c.Opt.T = 1 + r.Int63n(max64(1, g/4))
		if flip(r) {
			c.Opt.Plan, c.Opt.NPlan = flip(r), oneIn(r, 4)
		}
		if oneIn(r, 3) {
			c.Opt.Geom, c.Opt.Dist = flip(r), flip(r)
			c.Opt.Min = r.Int63n(max64(2, g/5))
			c.Cons = genCons(r, c.pts(0), g)
		}
		c.embed(r)
		return c
	},
	// self-intersection vertices
	"self": func(r *rand.Rand) *Case {
		g := pick(r, 4, 8, 20, 60)
		c := &Case{Mode: rndMode(r), Sq: oneIn(r, 4)}
		n := rlen(r, 3, 14, 60)
		var l []P
		switch r.Intn(4) {
		case 0:
			l = genLoopy(r, n, g)
		case 1:
			l = rndLine(r, 0, n, g)
		case 2: // ring or figure eight
			l = rndLine(r, 4, imin(imax(n, 4), 20), max64(g, 8))
			if flip(r) {
				m := rndLine(r, 4, imin(imax(n, 4), 20), max64(g, 8))
				dx, dy := l[0][0]-m[0][0], l[0][1]-m[0][1]
				for _, p := range m[1:] {
					l = append(l, P{p[0] + dx, p[1] + dy})
				}
				var mx, my int64
				for _, p := range l {
					mx, my = min64(mx, p[0]), min64(my, p[1])
				}
				for i := range l {
					l[i][0] -= mx
					l[i][1] -= my
				}
			}
		default:
			l = anyLine(r, n, g)
		}
		c.setLines(r, l)
		if oneIn(r, 4) {
			for k := r.Intn(3); k >= 0; k-- {
				c.setLines(r, anyLine(r, rlen(r, 3, 10, 20), g))
			}
			c.FC = flip(r)
		}
		c.Opt.T = 1 + rndT(r, g)
		if oneIn(r, 3) {
			rndAll(r, &c.Opt, g)
			c.Cons = genCons(r, l, g)
		} else {
			c.Opt.Avoid = oneIn(r, 3)
		}
		switch r.Intn(3) {
		case 0:
			c.Opt.Plan = true
		case 1:
			c.Opt.Plan, c.Opt.NPlan = false, true
		default:
			c.Opt.Plan, c.Opt.NPlan = true, true
		}
		c.embed(r)
		return c
	},
	// feature classes with shared vertices
	"fcj": func(r *rand.Rand) *Case {
		g := pick(r, 6, 12, 30)
		c := &Case{Mode: rndMode(r), Sq: oneIn(r, 4), FC: true}
		var pool []P
		for k := 2 + r.Intn(6); k > 0; k-- {
			pool = append(pool, P{r.Int63n(g + 1), r.Int63n(g + 1)})
		}
		nl := 1 + r.Intn(5)
		if oneIn(r, 6) {
			nl = 8 + r.Intn(12)
		}
		for k := 0; k < nl; k++ {
			l := anyLine(r, rlen(r, 2, 9, 30), g)
			for i := range l {
				if oneIn(r, 4) {
					l[i] = pool[r.Intn(len(pool))]
				}
			}
			c.setLines(r, l)
		}
		if oneIn(r, 3) {
			rndAll(r, &c.Opt, g)
			c.Cons = genCons(r, pool, g)
		} else {
			c.Opt.Avoid = oneIn(r, 3)
		}
		c.Opt.T = 1 + rndT(r, g)
		c.Opt.Plan = true
		c.embed(r)
		return c
	},
	// avoid new self-intersections, one line in general position
	"avoid": func(r *rand.Rand) *Case {
		g := pick(r, 20, 40, 100, 3000)
		c := &Case{Mode: rndMode(r), Sq: oneIn(r, 4)}
		nm := 16
		if g == 3000 {
			nm = 40
		}
		var l []P
		if oneIn(r, 4) {
			l = genGP(r, 4, nm, g)
		} else {
			l = genSimple(r, true, 4, nm, g, 5)
		}
		c.setLines(r, l)
		c.Opt.T = 1 + r.Int63n(g)
		c.Opt.Avoid = true
		c.Opt.Plan, c.Opt.NPlan = oneIn(r, 3), oneIn(r, 4)
		c.Opt.Disp = pick(r, 0, 2, 6, g/4, 4*g)
		if g == 3000 {
			c.Opt.Disp = 4 * g
			c.Big = true
		} else if oneIn(r, 4) {
			rndRel(r, &c.Opt, g)
			c.Cons = genCons(r, l, g)
		}
		c.embed(r)
		return c
	},
	// feature class in general position
	"fc": func(r *rand.Rand) *Case {
		g := pick(r, 20, 40, 100, 3000)
		c := &Case{Mode: rndMode(r), Sq: oneIn(r, 4), FC: true}
		nl := 2 + r.Intn(3)
		if oneIn(r, 8) {
			nl = 6 + r.Intn(8)
		}
		nm := 10
		if g < 100 && nl > 4 {
			nm = 5
		}
		var all []P
		for try := 0; len(c.Lines) < nl && try < 400; try++ {
			var l []P
			if len(c.Lines) > 0 && oneIn(r, 3) { // nearly a copy: equal index ranges
				for _, p := range c.Lines[r.Intn(len(c.Lines))] {
					l = append(l, P{clamp(p[0]+r.Int63n(7)-3, 0, g), clamp(p[1]+r.Int63n(7)-3, 0, g)})
				}
			} else if oneIn(r, 5) {
				l = genGP(r, 2, nm, g)
			} else {
				l = genSimple(r, true, 2, nm, g, 4)
			}
			if generalPos(append(append([]P{}, all...), l...)) {
				all = append(all, l...)
				c.setLines(r, l)
			}
		}
		c.Opt.T = 1 + r.Int63n(g)
		c.Opt.Avoid = true
		c.Opt.Plan, c.Opt.NPlan = oneIn(r, 3), oneIn(r, 4)
		c.Opt.Disp = pick(r, 0, 2, 6, g/4, 4*g)
		if g == 3000 {
			c.Opt.Disp = 4 * g
			c.Big = true
		} else if oneIn(r, 5) {
			rndRel(r, &c.Opt, g)
			c.Cons = genCons(r, all, g)
		}
		c.embed(r)
		return c
	},
	// lines that touch themselves and each other: shared vertices, vertices on segments, overlaps
	"touch": func(r *rand.Rand) *Case {
		g := pick(r, 2, 4, 7, 12, 25, 50)
		c := &Case{Mode: rndMode(r), Sq: oneIn(r, 4)}
		nl := 1
		if !oneIn(r, 3) {
			nl = 1 + r.Intn(4)
			c.FC = true
		}
		if c.FC && oneIn(r, 8) {
			nl = 8 + r.Intn(10)
		}
		var all []P
		for k := 0; k < nl; k++ {
			var l []P
			n := 3 + r.Intn(9)
			switch r.Intn(6) {
			case 0:
				l = genDegen(r, n, g)
			case 1:
				l = genLoopy(r, n, g)
			case 2:
				l = rndLine(r, 3, n+r.Intn(8), g)
			case 3: // one long segment, which many hulls may touch
				l = []P{{0, r.Int63n(g + 1)}, {g, r.Int63n(g + 1)}}
			default:
				l = anyLine(r, n, g)
			}
			if k > 0 { // pull some vertices onto earlier lines
				for i := range l {
					if oneIn(r, 5) {
						l[i] = all[r.Intn(len(all))]
					} else if oneIn(r, 6) {
						m := c.pts(r.Intn(k))
						j := r.Intn(len(m) - 1)
						l[i] = P{(m[j][0] + m[j+1][0]) / 2, (m[j][1] + m[j+1][1]) / 2}
					}
				}
			}
			all = append(all, l...)
			c.setLines(r, l)
		}
		c.Opt.T = 1 + r.Int63n(g)
		c.Opt.Avoid = true
		c.Opt.Plan, c.Opt.NPlan = oneIn(r, 4), oneIn(r, 5)
		c.Opt.Disp = pick(r, 0, 1, 3, 4*g)
		if oneIn(r, 6) {
			rndRel(r, &c.Opt, g)
			c.Cons = genCons(r, all, g)
		}
		c.embed(r)
		return c
	},
	// constraints
	"con": func(r *rand.Rand) *Case {
		g := pick(r, 10, 20, 40, 80)
		c := &Case{Mode: rndMode(r), Sq: oneIn(r, 4)}
		nl := 1
		if oneIn(r, 4) {
			nl = 2 + r.Intn(3)
			c.FC = !oneIn(r, 3)
		}
		var all []P
		for k := 0; k < nl; k++ {
			var l []P
			switch r.Intn(4) {
			case 0:
				l = anyLine(r, rlen(r, 3, 12, 60), g)
			case 1: // spiral
				l = rndLine(r, 3, 5+r.Intn(14), g)
			default:
				l = genSimple(r, false, 3, 14, g, 5)
			}
			all = append(all, l...)
			c.setLines(r, l)
		}
		if oneIn(r, 10) {
			var k Con
			c.Lines, all = nil, nil
			all, k = genBulge(r, g/2)
			c.setLines(r, all)
			c.Cons = append(c.Cons, k)
		}
		rndRel(r, &c.Opt, g)
		if oneIn(r, 3) {
			c.Opt.Avoid, c.Opt.Plan, c.Opt.NPlan = flip(r), flip(r), oneIn(r, 3)
		}
		c.Opt.T = 1 + rndT(r, g)
		c.Opt.Disp = pick(r, 0, 3, g)
		c.Cons = append(c.Cons, genCons(r, all, g)...)
		c.embed(r)
		return c
	},
	// a long line
	"long": func(r *rand.Rand) *Case {
		g := pick(r, 40, 100, 150)
		c := &Case{Mode: rndMode(r), Sq: oneIn(r, 3)}
		n := 80 + r.Intn(80)
		if oneIn(r, 3) {
			n = 150 + r.Intn(350)
		}
		if c.Mode == "sed" { // synchronised offsets need room for coordinates times durations
			g = 40
			n = imin(n, 300)
		}
		var l []P
		switch r.Intn(4) {
		case 0: // a wander
			p := P{g / 2, g / 2}
			for len(l) < n {
				l = append(l, p)
				p = P{clamp(p[0]+r.Int63n(7)-3, 0, g), clamp(p[1]+r.Int63n(7)-3, 0, g)}
			}
		case 1: // a band from left to right
			for i := 0; i < n; i++ {
				l = append(l, P{int64(i) * g / int64(n), clamp(g/2+int64(float64(g/3)*wave(i, n, 5))+r.Int63n(4), 0, g)})
			}
		case 2: // up and down in columns
			w := 4 + r.Int63n(6)
			for i := int64(0); len(l) < n && i < g/2*w; i++ { // up to the right edge
				k := i / w % 2
				y := i % w
				if k == 1 {
					y = w - 1 - y
				}
				l = append(l, P{clamp(i/w*2+r.Int63n(2), 0, g), clamp(y*(g/w)+r.Int63n(2), 0, g)})
			}
		default: // full of crossings, and every crossing costs
			l = anyLine(r, imin(n, 130), g)
		}
		c.setLines(r, l)
		switch r.Intn(4) {
		case 0:
		case 1:
			c.Opt.Plan, c.Opt.NPlan = flip(r), flip(r)
		case 2:
			rndRel(r, &c.Opt, g)
			c.Cons = genCons(r, l, g)
		default:
			c.Opt.Avoid, c.Opt.Plan = true, oneIn(r, 3)
			c.Opt.Disp = pick(r, 0, 3, 4*g)
		}
		c.Opt.T = 1 + rndT(r, g)/(1+r.Int63n(6))
		c.embed(r)
		return c
	},
	// a class of many lines
	"crowd": func(r *rand.Rand) *Case {
		g := pick(r, 24, 60, 120)
		c := &Case{Mode: rndMode(r), Sq: oneIn(r, 4), FC: !oneIn(r, 6)}
		nl := 16 + r.Intn(24)
		if oneIn(r, 3) {
			nl = 40 + r.Intn(40)
		}
		span := 2 + r.Int63n(1+g/6)
		var pool []P
		for k := 0; k < nl; k++ {
			var l []P
			p := P{r.Int63n(g + 1), r.Int63n(g + 1)}
			if len(pool) > 0 && oneIn(r, 3) {
				p = pool[r.Intn(len(pool))]
			}
			for n := 2 + r.Intn(9); n > 0; n-- {
				l = append(l, p)
				p = P{clamp(p[0]+r.Int63n(2*span+1)-span, 0, g), clamp(p[1]+r.Int63n(2*span+1)-span, 0, g)}
				if len(pool) > 0 && oneIn(r, 12) {
					p = pool[r.Intn(len(pool))]
				}
			}
			pool = append(pool, l[r.Intn(len(l))])
			c.setLines(r, l)
		}
		c.Opt.T = 1 + r.Int63n(2*span)
		switch r.Intn(3) {
		case 0:
			c.Opt.Plan, c.Opt.NPlan = true, oneIn(r, 3)
		case 1:
			c.Opt.Avoid = true
		default:
			c.Opt.Avoid, c.Opt.Plan = true, true
		}
		if oneIn(r, 4) {
			rndRel(r, &c.Opt, span)
			c.Cons = genCons(r, pool, g)
		}
		c.Opt.Disp = pick(r, 0, 2, 4*g)
		c.embed(r)
		return c
	},
	// everything
	"mix": func(r *rand.Rand) *Case {
		g := pick(r, 5, 10, 30, 80)
		c := &Case{Mode: rndMode(r), Sq: flip(r)}
		nl := 1
		if oneIn(r, 3) {
			nl = r.Intn(12)
		}
		c.FC = oneIn(r, 3)
		var all = []P{{0, 0}}
		for k := 0; k < nl; k++ {
			l := anyLine(r, rlen(r, 2, 12, 60), g)
			if k > 0 && oneIn(r, 6) { // identical feature
				l = c.pts(r.Intn(k))
			}
			all = append(all, l...)
			c.setLines(r, l)
		}
		c.Opt.T = rndT(r, g)
		rndAll(r, &c.Opt, g)
		if !oneIn(r, 4) {
			c.Cons = genCons(r, all, g)
		}
		c.embed(r)
		return c
	},
	// degenerate inputs
	"degen": func(r *rand.Rand) *Case {
		g := pick(r, 1, 2, 3, 6, 15)
		c := &Case{Mode: rndMode(r), Sq: flip(r)}
		nl := 1
		if flip(r) {
			nl = r.Intn(5)
		}
		c.FC = flip(r)
		var all = []P{{0, 0}}
		for k := 0; k < nl; k++ {
			var l []P
			n := 2 + r.Intn(12)
			switch r.Intn(5) {
			case 0:
				l = genDegen(r, n, g)
			case 1:
				l = genLoopy(r, n, g)
			case 2: // all on one line
				for len(l) < n {
					x := r.Int63n(g + 1)
					l = append(l, P{x, x})
				}
			case 3: // one location
				p := P{r.Int63n(g + 1), r.Int63n(g + 1)}
				for len(l) < n {
					l = append(l, p)
				}
				if flip(r) {
					l[r.Intn(n)] = P{r.Int63n(g + 1), r.Int63n(g + 1)}
				}
			default:
				if k > 0 {
					l = c.pts(r.Intn(k))
					if flip(r) {
						for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
							l[a], l[b] = l[b], l[a]
						}
					}
				} else {
					l = anyLine(r, n, g)
				}
			}
			all = append(all, l...)
			c.setLines(r, l)
		}
		c.Opt.T = rndT(r, g)
		rndAll(r, &c.Opt, max64(g, 4))
		if flip(r) {
			c.Opt.Avoid = true
		}
		for k := r.Intn(5); k > 0; k-- {
			switch r.Intn(3) {
			case 0:
				c.Cons = append(c.Cons, genConNear(r, all, g))
			case 1:
				c.Cons = append(c.Cons, Con{"point", [][]P{{all[r.Intn(len(all))]}}})
			default: // a stretch of a line as constraint
				if len(c.Lines) > 0 {
					l := c.pts(r.Intn(len(c.Lines)))
					a := r.Intn(len(l) - 1)
					b := a + 1 + r.Intn(len(l)-a-1)
					c.Cons = append(c.Cons, Con{"line", [][]P{append([]P{}, l[a:b+1]...)}})
				}
			}
		}
		c.embed(r)
		return c
	},
	// parts of the line at stake, parts not
	"stake": func(r *rand.Rand) *Case {
		g := pick(r, 20, 40, 80)
		c := &Case{Mode: rndMode(r), Sq: oneIn(r, 4)}
		nl := 1
		if flip(r) {
			nl = 2 + r.Intn(3)
			c.FC = true
		}
		var all []P
		for k := 0; k < nl; k++ {
			var l []P
			n := 6 + r.Intn(12)
			switch r.Intn(3) {
			case 0:
				l = rndLine(r, 2, n, g)
			case 1:
				l = rndLine(r, 1, n, g)
			default:
				l = genSimple(r, false, 5, n, g, 5)
			}
			all = append(all, l...)
			c.setLines(r, l)
		}
		c.Opt.T = 1 + r.Int63n(g/3)
		c.Opt.Avoid = !oneIn(r, 4)
		c.Opt.Plan, c.Opt.NPlan = oneIn(r, 4), oneIn(r, 6)
		c.Opt.Disp = pick(r, 0, 2, g)
		if flip(r) {
			rndRel(r, &c.Opt, g/2)
		}
		for k := r.Intn(6); k > 0; k-- {
			c.Cons = append(c.Cons, genCon(r, g))
		}
		c.embed(r)
		return c
	},
}

// a constraint at distance m from a chord of the line, where that comes out exact
func genConTied(r *rand.Rand, l []P, m int64) Con {
	i := r.Intn(len(l) - 1)
	j := i + 1 + r.Intn(len(l)-1-i)
	a, b := l[i], l[j]
	if flip(r) {
		a, b = b, a
	}
	x, y := int64(1), int64(1) // away from b
	if b[0] > a[0] {
		x = -1
	}
	if b[1] > a[1] {
		y = -1
	}
	p, q := P{a[0] + x*m, a[1]}, P{a[0] + x*(m+3), a[1]}
	switch {
	case a[1] == b[1] && a[0] != b[0] && flip(r): // beside a level chord
		p[0] = min64(a[0], b[0]) + r.Int63n(abs64(a[0]-b[0])+1)
		p[1] = a[1] + y*m
		q = P{p[0], p[1] + y*2}
	case flip(r):
		p, q = P{a[0], a[1] + y*m}, P{a[0], a[1] + y*(m+3)}
	}
	switch r.Intn(3) {
	case 0:
		return Con{"point", [][]P{{p}}}
	case 1:
		return Con{"line", [][]P{{p, q}}}
	}
	return Con{"polygon", [][]P{{p, q, {q[0] + (q[1] - p[1]), q[1] + (q[0] - p[0])}, p}}}
}

// with another constraint of the same bounds as one of them, next to it
func addTwin(r *rand.Rand, cons []Con) []Con {
	i := r.Intn(len(cons))
	a := cons[i].Parts[0][0]
	b := a
	for _, p := range cons[i].Parts[0] {
		a[0], a[1], b[0], b[1] = min64(a[0], p[0]), min64(a[1], p[1]), max64(b[0], p[0]), max64(b[1], p[1])
	}
	if a[0] == b[0] || a[1] == b[1] {
		return cons
	}
	c, d := P{a[0], b[1]}, P{b[0], a[1]}
	t := Con{"line", [][]P{{a, b}}}
	switch r.Intn(5) {
	case 0:
		t.Parts[0] = []P{c, d}
	case 1:
		t.Parts[0] = []P{c, a, d}
	case 2:
		t.Parts[0] = []P{c, b, d}
	case 3:
		t = Con{"polygon", [][]P{{a, d, b, a}}}
	}
	out := append(append([]Con{}, cons[:i]...), t, cons[i])
	if flip(r) {
		out[i], out[i+1] = out[i+1], out[i]
	}
	return append(out, cons[i+1:]...)
}

func genCase(fam string, seed int64, idx int) *Case {
	var c = families[fam](rng4(fam, seed, idx))
	c.Fam, c.Seed, c.Idx = fam, seed, idx
	if r := rng4(fam+" tied", seed, idx); c.Opt.Dist && c.Opt.Min > 0 && oneIn(r, 3) && len(c.Lines) > 0 && !strings.HasPrefix(fam, "enum") {
		for k := 1 + r.Intn(3); k > 0; k-- {
			if l := c.pts(r.Intn(len(c.Lines))); len(l) > 1 {
				c.Cons = append(c.Cons, genConTied(r, l, c.Opt.Min))
			}
		}
	}
	if r := rng4(fam+" twin", seed, idx); len(c.Cons) > 0 && oneIn(r, 8) && !strings.HasPrefix(fam, "enum") {
		c.Cons = addTwin(r, c.Cons)
	}
	if c.Lines == nil {
		c.Lines = [][][3]int64{}
	}
	if c.Cons == nil {
		c.Cons = []Con{}
	}
	return c
}
