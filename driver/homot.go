package main

import "sort"

// crossing word of a path relative to upward rays from the obstacle points
func crossWord(path []P, obs []P) []int {
	var w []int
	ord := make([]int, len(obs))
	for i := range ord {
		ord[i] = i
	}
	// rays are shifted right by an infinitesimal: for equal x the higher one is nearer
	sort.Slice(ord, func(a, b int) bool {
		p, q := obs[ord[a]], obs[ord[b]]
		if p[0] != q[0] {
			return p[0] < q[0]
		}
		return p[1] > q[1]
	})
	for i := 0; i+1 < len(path); i++ {
		a, b := path[i], path[i+1]
		if a[0] <= b[0] {
			for _, o := range ord {
				p := obs[o]
				if a[0] <= p[0] && p[0] < b[0] && cross(a, b, p) < 0 {
					w = push(w, o+1)
				}
			}
		} else {
			for k := len(ord) - 1; k >= 0; k-- {
				o := ord[k]
				p := obs[o]
				if b[0] <= p[0] && p[0] < a[0] && cross(b, a, p) < 0 {
					w = push(w, -(o + 1))
				}
			}
		}
	}
	return w
}

func push(w []int, l int) []int {
	if n := len(w); n > 0 && w[n-1] == -l {
		return w[:n-1]
	}
	return append(w, l)
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
