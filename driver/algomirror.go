package main

import "sort"

// A mirror of the procedure of spec/Algo.tla. It only decides which recorded
// simplifications are looked at first: a doubt is not a verdict.

type hull struct{ c []P } // corners, counterclockwise

func hullOf(l []P) hull {
	ps := append([]P{}, l...)
	sort.Slice(ps, func(a, b int) bool { return ps[a][0] < ps[b][0] || (ps[a][0] == ps[b][0] && ps[a][1] < ps[b][1]) })
	u := ps[:0]
	for i, p := range ps {
		if i == 0 || p != u[len(u)-1] {
			u = append(u, p)
		}
	}
	if len(u) < 3 {
		return hull{u}
	}
	var h []P
	for pass := 0; pass < 2; pass++ {
		from := len(h)
		for _, p := range u {
			for len(h) >= from+2 && cross(h[len(h)-2], h[len(h)-1], p) <= 0 {
				h = h[:len(h)-1]
			}
			h = append(h, p)
		}
		h = h[:len(h)-1]
		for i, j := 0, len(u)-1; i < j; i, j = i+1, j-1 {
			u[i], u[j] = u[j], u[i]
		}
	}
	return hull{h}
}
func (h hull) flat() bool { return len(h.c) < 3 }
func (h hull) in(p P) bool {
	switch len(h.c) {
	case 1:
		return p == h.c[0]
	case 2:
		return onSeg(p, h.c[0], h.c[1])
	}
	for i := range h.c {
		if cross(h.c[i], h.c[(i+1)%len(h.c)], p) < 0 {
			return false
		}
	}
	return true
}
func (h hull) strictly(p P) bool {
	for i := range h.c {
		if cross(h.c[i], h.c[(i+1)%len(h.c)], p) <= 0 {
			return false
		}
	}
	return !h.flat()
}
func (h hull) corner(p P) bool {
	for _, q := range h.c {
		if p == q {
			return true
		}
	}
	return false
}
func hullsTouch(a, b hull) bool {
	for i := range a.c {
		if b.in(a.c[i]) {
			return true
		}
		for j := range b.c {
			if len(a.c) > 1 && len(b.c) > 1 &&
				segInter(a.c[i], a.c[(i+1)%len(a.c)], b.c[j], b.c[(j+1)%len(b.c)]) {
				return true
			}
		}
	}
	for j := range b.c {
		if a.in(b.c[j]) {
			return true
		}
	}
	return false
}

func (h hull) meets(k *Con) bool {
	for i := range h.c {
		if segCon(h.c[i], h.c[(i+1)%len(h.c)], k) {
			return true
		}
	}
	for _, part := range k.Parts {
		for _, p := range part {
			if h.in(p) {
				return true
			}
		}
	}
	return false
}

// a set of outcomes: bit 0 none, bit 1 {a}, bit 2 {b}, bit 3 {a, b}
type outcomes uint8

const (
	oNone outcomes = 1 << iota
	oA
	oB
	oBoth
)

type algoMirror struct {
	c      *Case
	pts    [][]P
	hulls  map[lf]hull
	pairs  map[[2]lf]outcomes
	budget int
}
type lf struct{ l, i, j int }

func (m *algoMirror) hull(f lf) hull {
	h, ok := m.hulls[f]
	if !ok {
		h = hullOf(m.st(f))
		m.hulls[f] = h
	}
	return h
}
func (m *algoMirror) st(f lf) []P { return m.pts[f.l][f.i : f.j+1] }

func (m *algoMirror) contig(a, b lf) outcomes {
	A, B := m.hull(a), m.hull(b)
	if len(A.c) == 1 || len(B.c) == 1 {
		return oNone
	}
	P, Q := m.st(a), m.st(b)
	out := outcomes(0)
	mustA, mayA := unfold(P, A, Q)
	mustB, mayB := unfold(Q, B, P)
	for k := 0; k < 4; k++ {
		x, y := k&1 != 0, k&2 != 0
		if (mustA && !x) || (x && !mayA) || (mustB && !y) || (y && !mayB) {
			continue
		}
		out |= 1 << uint(k)
	}
	return out
}
func unfold(P_ []P, A hull, Q []P) (must, may bool) {
	i, j := Q[0], Q[len(Q)-1]
	far := i
	if (P_[0] == i || P_[len(P_)-1] == i) && i != j {
		far = j
	}
	return len(P_) > 2 && A.strictly(far), len(P_) > 2 && !A.flat() && A.in(far)
}

func (m *algoMirror) contiguous(a, b lf) (sure, may bool) {
	A, B := m.hull(a), m.hull(b)
	P_, Q := m.st(a), m.st(b)
	ends := []P{P_[0], P_[len(P_)-1], Q[0], Q[len(Q)-1]}
	if ends[0] != ends[2] && ends[0] != ends[3] && ends[1] != ends[2] && ends[1] != ends[3] {
		return false, false
	}
	for _, e := range ends {
		if !A.in(e) || !B.in(e) {
			continue
		}
		ea, eb := len(A.c) == 1 || A.corner(e), len(B.c) == 1 || B.corner(e)
		if (ea && (A.flat() || !B.flat())) || (eb && !A.flat()) {
			sure = true
		}
		if ea || eb || (!A.strictly(e) && !B.strictly(e)) {
			may = true
		}
	}
	return sure, may
}

func (m *algoMirror) noncontig(a, b lf) outcomes {
	P_, Q := m.st(a), m.st(b)
	u, v, w, z := P_[0], P_[len(P_)-1], Q[0], Q[len(Q)-1]
	segs := segInter(u, v, w, z)
	if lineInter(P_, Q) {
		if !segs {
			return oBoth
		}
		if m.c.Opt.Disp >= 400 {
			return oNone
		}
		S := segPoints(u, v, w, z)
		d := float64(m.c.Opt.Disp)
		far, near := false, m.c.Opt.Disp > 0
		sharp, over := !crossesOffVertex(u, v, w, z), false
		for i := 0; i+1 < len(P_); i++ {
			for j := 0; j+1 < len(Q); j++ {
				sharp = sharp && !crossesOffVertex(P_[i], P_[i+1], Q[j], Q[j+1])
				for _, x := range segPoints(P_[i], P_[i+1], Q[j], Q[j+1]) {
					for _, s := range S {
						d2 := (x[0]-s[0])*(x[0]-s[0]) + (x[1]-s[1])*(x[1]-s[1])
						sharp = sharp && (x[0] == s[0] || x[1] == s[1])
						over = over || d2 > d*d
						far = far || d2 > (d+0.03)*(d+0.03)
						near = near && d2 < (d-0.03)*(d-0.03)
					}
				}
			}
		}
		if sharp && over {
			return oBoth
		} else if sharp {
			return oNone
		}
		out := outcomes(0)
		if !far {
			out |= oNone
		}
		if !near {
			out |= oBoth
		}
		return out
	}
	switch {
	case !segs:
		return oNone
	case lineInter([]P{u, v}, Q):
		return oA
	case lineInter([]P{w, z}, P_):
		return oB
	}
	return oNone
}

func segPoints(a, b, c, d P) [][2]float64 {
	if !segInter(a, b, c, d) {
		return nil
	}
	if proper(a, b, c, d) {
		x, y := interPt(a, b, c, d)
		return [][2]float64{{x, y}}
	}
	var out [][2]float64
	for _, v := range []P{a, b} {
		if onSeg(v, c, d) {
			out = append(out, [2]float64{float64(v[0]), float64(v[1])})
		}
	}
	for _, v := range []P{c, d} {
		if onSeg(v, a, b) {
			out = append(out, [2]float64{float64(v[0]), float64(v[1])})
		}
	}
	return out
}

func (m *algoMirror) pair(a, b lf) outcomes {
	key := [2]lf{a, b}
	if o, ok := m.pairs[key]; ok {
		return o
	}
	o := oNone
	if hullsTouch(m.hull(a), m.hull(b)) {
		if a.l != b.l {
			o = m.noncontig(a, b)
		} else {
			o = 0
			sure, may := m.contiguous(a, b)
			if may {
				o |= m.contig(a, b)
			}
			if !sure {
				o |= m.noncontig(a, b)
			}
		}
	}
	m.pairs[key] = o
	return o
}

func (m *algoMirror) off(f lf) (le, ge bool) {
	n, q, _ := m.c.argmax(f.l, f.i, f.j)
	t := m.c.Opt.T * m.c.Opt.T * q
	return n <= t, m.c.mayExceed(f.l, f.i, f.j)
}

// relation to the context: surely valid, possibly valid
func (m *algoMirror) context(f lf) (sure, may bool) {
	if f.j == f.i+1 {
		return true, true
	}
	sure, may = true, true
	sub := m.st(f)
	a, b := sub[0], sub[len(sub)-1]
	o := m.c.Opt
	m2 := o.Min * o.Min
	var obs []P
	for k := range m.c.Cons {
		con := &m.c.Cons[k]
		if o.Geom || o.Dir {
			x, y := segCon(a, b, con), lineCon(sub, con)
			if x != y {
				return false, false
			}
			if o.Dir && !x && !y {
				obs = append(obs, con.Parts[0][0])
				sure = sure && !m.hull(f).meets(con)
			}
		}
		if o.Dist {
			n1, q1 := lineConDist(sub, con)
			n2, q2 := segConDist(a, b, con)
			if n2 < m2*q2 && n1 >= m2*q1 && !lineConMayLt(sub, con, m2) {
				return false, false
			}
			if n1 >= m2*q1 && segConMayLt(a, b, con, m2) {
				sure = false
			}
		}
	}
	if o.Dir && !eqInts(crossWord(sub, obs), crossWord([]P{a, b}, obs)) {
		return false, false
	}
	return sure, may
}

func (m *algoMirror) judged(x lf, against []lf, sure, maybe map[lf]bool) {
	var sx, mx bool
	mark := func(o outcomes, with outcomes, f lf) (s, y bool) { // with: outcomes that contain f
		s, y = o&^with == 0, o&with != 0
		if f.j > f.i+1 {
			if s {
				sure[f] = true
			}
			if y {
				maybe[f] = true
			}
		}
		return
	}
	if m.c.Opt.Avoid {
		for _, y := range against {
			if y == x {
				continue
			}
			o := m.pair(x, y)
			s, t := mark(o, oA|oBoth, x)
			sx, mx = sx || s, mx || t
			mark(o, oB|oBoth, y)
		}
	}
	if x.j > x.i+1 {
		s, y := m.context(x)
		if !mx && !y {
			sure[x] = true
		}
		if !sx && !s {
			maybe[x] = true
		}
	}
}

func (m *algoMirror) splitAt(f lf) []int {
	_, _, ks := m.c.argmax(f.l, f.i, f.j)
	return ks
}

// all ways to subdivide f until within the threshold
func (m *algoMirror) settle(f lf) [][]R {
	if f.j == f.i+1 {
		return [][]R{{{f.i, f.j}}}
	}
	le, ge := m.off(f)
	var out [][]R
	if le {
		out = append(out, []R{{f.i, f.j}})
	}
	if ge {
		out = append(out, m.divide(f)...)
	}
	return out
}
func (m *algoMirror) divide(f lf) [][]R {
	var out [][]R
	for _, k := range m.splitAt(f) {
		for _, x := range m.settle(lf{f.l, f.i, k}) {
			for _, y := range m.settle(lf{f.l, k, f.j}) {
				m.budget--
				if m.budget < 0 {
					return out
				}
				out = append(out, append(append([]R{}, x...), y...))
			}
		}
	}
	return out
}

// ways to replace each fragment of chosen by a subdivision; f is called with the new partitions and fragments
func (m *algoMirror) splits(part [][]R, chosen []lf, fresh []lf, ok func(f lf, ds []R) bool, f func([][]R, []lf)) {
	if m.budget < 0 {
		return
	}
	if len(chosen) == 0 {
		f(part, fresh)
		return
	}
	x := chosen[0]
	for _, ds := range m.divide(x) {
		if !ok(x, ds) {
			continue
		}
		var p [][]R
		p = append(p, part...)
		var rs []R
		for _, r := range p[x.l] {
			if r == (R{x.i, x.j}) {
				rs = append(rs, ds...)
			} else {
				rs = append(rs, r)
			}
		}
		p[x.l] = rs
		fr := append([]lf{}, fresh...)
		for _, d := range ds {
			fr = append(fr, lf{x.l, d[0], d[1]})
		}
		m.splits(p, chosen[1:], fr, ok, f)
	}
}

func allOf(part [][]R, keep func(l int) bool) []lf {
	var out []lf
	for l := range part {
		if keep(l) {
			for _, r := range part[l] {
				out = append(out, lf{l, r[0], r[1]})
			}
		}
	}
	return out
}

// what a round may choose
func choices(sure, may map[lf]bool) [][]lf {
	var must, free []lf
	for f := range may {
		if sure[f] {
			must = append(must, f)
		} else {
			free = append(free, f)
		}
	}
	for f := range sure {
		if !may[f] {
			must = append(must, f)
		}
	}
	if len(free) > 6 {
		return nil
	}
	var out [][]lf
	for k := 0; k < 1<<uint(len(free)); k++ {
		s := append([]lf{}, must...)
		for i := range free {
			if k>>uint(i)&1 == 1 {
				s = append(s, free[i])
			}
		}
		out = append(out, s)
	}
	return out
}

func (m *algoMirror) protected(l int) []int {
	pts, c := m.pts[l], m.c
	var out []int
	for i := range pts {
		p := false
		if c.Opt.Plan {
			for k := range m.pts {
				if k != l && !c.FC {
					continue
				}
				for j := range m.pts[k] {
					p = p || (k != l || j != i) && m.pts[k][j] == pts[i]
				}
			}
		}
		if c.Opt.NPlan {
			for a := imax(0, i-1); a <= i && a+1 < len(pts); a++ {
				for b := 0; b+1 < len(pts); b++ {
					p = p || a != b && crossesOffVertex(pts[a], pts[a+1], pts[b], pts[b+1])
				}
			}
		}
		if p {
			out = append(out, i)
		}
	}
	return out
}

// the merging passes over rs from position at that end with want
func (m *algoMirror) fold(l int, rs []R, at int, prot []int, want []R) bool {
	m.budget--
	if m.budget < 0 {
		return true
	}
	if at >= len(rs) {
		return eqRanges(rs, want)
	}
	f := rs[at]
	no, yes := true, false
	if f[1] == f[0]+1 && at+1 < len(rs) && !has(prot, f[1]) {
		no, yes = m.merge(l, rs, at)
	}
	if yes {
		n := append(append([]R{}, rs[:at]...), R{f[0], rs[at+1][1]})
		if m.fold(l, append(n, rs[at+2:]...), at+1, prot, want) {
			return true
		}
	}
	if !no {
		return false
	}
	no, yes = true, false
	if f[1] == f[0]+1 && at > 0 && !has(prot, f[0]) {
		no, yes = m.merge(l, rs, at-1)
	}
	if yes {
		n := append(append([]R{}, rs[:at-1]...), R{rs[at-1][0], f[1]})
		if m.fold(l, append(n, rs[at+1:]...), at, prot, want) {
			return true
		}
	}
	return no && m.fold(l, rs, at+1, prot, want)
}
func (m *algoMirror) merge(l int, rs []R, k int) (no, yes bool) {
	h := lf{l, rs[k][0], rs[k+1][1]}
	le, ge := m.off(h)
	if !le {
		return true, false
	}
	yes, no = true, ge
	if m.c.Opt.Avoid {
		for i, r := range rs {
			if i == k || i == k+1 {
				continue
			}
			o := m.pair(h, lf{l, r[0], r[1]})
			if o&oNone == 0 {
				return true, false
			}
			no = no || o != oNone
		}
	}
	s, y := m.context(h)
	if !y {
		return true, false
	}
	return no || !s, yes
}

// can line l on its own get from base to stage
func (m *algoMirror) alone(l int, base, stage []R) bool {
	prot := m.protected(l)
	cut := map[int]bool{}
	for _, v := range prot {
		cut[v] = true
	}
	for _, r := range base {
		cut[r[0]], cut[r[1]] = true, true
	}
	var cs []int
	for v := range cut {
		cs = append(cs, v)
	}
	sort.Ints(cs)
	starts := [][]R{nil}
	for k := 0; k+1 < len(cs); k++ {
		var next [][]R
		for _, s := range starts {
			for _, d := range m.settle(lf{l, cs[k], cs[k+1]}) {
				next = append(next, append(append([]R{}, s...), d...))
			}
		}
		if starts = next; len(starts) > 64 {
			return true
		}
	}
	part := make([][]R, len(m.pts))
	for _, s := range starts {
		part[l] = s
		if m.rounds(l, part, allOf(part, func(k int) bool { return k == l }), prot, stage) {
			return true
		}
	}
	return false
}
func (m *algoMirror) rounds(l int, part [][]R, fresh []lf, prot []int, stage []R) bool {
	if m.budget < 0 {
		return true
	}
	sure, may := map[lf]bool{}, map[lf]bool{}
	here := allOf(part, func(k int) bool { return k == l })
	for _, x := range fresh {
		m.judged(x, here, sure, may)
	}
	cs := choices(sure, may)
	if cs == nil {
		return true
	}
	found := false
	for _, s := range cs {
		if len(s) == 0 {
			found = m.fold(l, part[l], 0, prot, stage)
		} else {
			m.splits(part, s, nil, func(lf, []R) bool { return !found }, func(p [][]R, fr []lf) {
				found = found || m.rounds(l, p, fr, prot, stage)
			})
		}
		if found {
			return true
		}
	}
	return m.budget < 0
}

// can the lines get from part to final as a class
func (m *algoMirror) class(part [][]R, fresh []lf, dirty map[int]bool, final [][]R, isFinal map[lf]bool, cuts []map[int]bool, rounds []int) bool {
	if m.budget < 0 {
		return true
	}
	if len(rounds) == 0 || (rounds[0] != -1 && rounds[0] != len(fresh)) {
		return false
	}
	if rounds[0] != -1 {
		rounds = rounds[1:]
	}
	sure, may := map[lf]bool{}, map[lf]bool{}
	for _, x := range fresh {
		m.judged(x, allOf(part, func(k int) bool { return k != x.l || dirty[k] }), sure, may)
	}
	cs := choices(sure, may)
	if cs == nil {
		return true
	}
	found := false
	for _, s := range cs {
		if len(s) == 0 {
			same := len(rounds) == 0 || rounds[0] == -1
			for l := range part {
				same = same && eqRanges(part[l], final[l])
			}
			found = found || same
			continue
		}
		d := map[int]bool{}
		for l := range dirty {
			d[l] = true
		}
		ok := true
		for _, x := range s {
			d[x.l] = true
			ok = ok && !isFinal[x]
		}
		if !ok {
			continue
		}
		m.splits(part, s, nil, func(f lf, ds []R) bool {
			for _, r := range ds {
				if !cuts[f.l][r[0]] || !cuts[f.l][r[1]] {
					return false
				}
			}
			return !found
		}, func(p [][]R, fr []lf) {
			found = found || m.class(p, fr, d, final, isFinal, cuts, rounds)
		})
		if found {
			return true
		}
	}
	return found || m.budget < 0
}

func (rec *SimpRec) followsAlgo() bool {
	c := rec.Case
	if c.Big || len(c.Lines) == 0 {
		return true
	}
	m := &algoMirror{c: c, hulls: map[lf]hull{}, pairs: map[[2]lf]outcomes{}, budget: 20000}
	for l := range c.Lines {
		m.pts = append(m.pts, c.pts(l))
	}
	for l := range c.Lines {
		m.budget = 20000
		if !c.exact(l, 0, len(c.Lines[l])-1, rec.Base[l]) || !m.alone(l, rec.Base[l], rec.Stage[l]) {
			return false
		}
	}
	o := c.Opt
	if !c.FC || !(o.Avoid || o.Plan || o.Geom || o.Dir || o.Dist) {
		for l := range c.Lines {
			if !eqRanges(rec.Stage[l], rec.Ranges[l]) {
				return false
			}
		}
		return true
	}
	isFinal := map[lf]bool{}
	var cuts []map[int]bool
	for l := range c.Lines {
		cut := map[int]bool{}
		for _, r := range rec.Ranges[l] {
			isFinal[lf{l, r[0], r[1]}] = true
			cut[r[0]], cut[r[1]] = true, true
		}
		cuts = append(cuts, cut)
	}
	m.budget = 20000
	return m.class(rec.Stage, allOf(rec.Stage, func(int) bool { return true }), map[int]bool{}, rec.Ranges, isFinal, cuts, rec.Rounds)
}
