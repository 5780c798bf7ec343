package main

import (
	"math/rand"
	"sync"
	"time"

	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

// Schedules: the score function of a line is the caller's, so it can make its
// worker wait. Two ways of waiting force interleavings that do not arise by
// themselves; a simplifier that works the lines off one after another makes the
// first wait expire, after which nobody waits.
type gate struct {
	sync.Mutex
	off     bool
	changed chan struct{}
	last    int
	begun   map[int]bool
	held    map[int]int // how many lines must have begun
}

func newGate() *gate { return &gate{changed: make(chan struct{}), last: -1, begun: map[int]bool{}} }

// waits until ok, or gives up for good
func (g *gate) until(ok func() bool, patience time.Duration) {
	var timer = time.NewTimer(patience)
	defer timer.Stop()
	g.Lock()
	for !g.off && !ok() {
		var ch = g.changed
		g.Unlock()
		select {
		case <-ch:
			g.Lock()
		case <-timer.C:
			g.Lock()
			g.off = true
		}
	}
	close(g.changed)
	g.changed = make(chan struct{})
}

// turns: no line scores twice in a row
func (g *gate) turn(l int) {
	g.until(func() bool { return g.last != l }, 3*time.Millisecond)
	g.last = l
	g.Unlock()
}

// held: some lines do not go on before so many lines have begun
func (g *gate) hold(l int) {
	g.Lock()
	g.begun[l] = true
	g.Unlock()
	g.until(func() bool { return len(g.begun) >= g.held[l] }, 20*time.Millisecond)
	g.Unlock()
}

func gated(f lnr.ScoreFn, wait func(int), l int) lnr.ScoreFn {
	if f == nil {
		return nil
	}
	return func(cs geom.Coords) (int, float64) {
		wait(l)
		return f(cs)
	}
}

func (c *Case) scheduled(what string, sel []int, wait func(int)) Run {
	d := c.only(sel)
	var id = iter.NewIgen()
	var options = d.options()
	var cons = d.constraints()
	var forest = make([]*constdp.ConstDP, 0)
	for l := range d.Lines {
		o := d.instance(id, l, cons, options)
		o.Score, o.SquareScore = gated(o.Score, wait, l), gated(o.SquareScore, wait, l)
		forest = append(forest, o)
	}
	d.simplify(id, forest, options)
	var rs = make([][]R, 0)
	for _, f := range forest {
		rs = append(rs, ranges(f.Hulls))
	}
	return Run{what, 0, d.FC, sel, d.Opt, append([]Con{}, d.Cons...), []Con{}, rs}
}

func init() {
	recorders["sched"] = recSched
	inputs["sched"] = func(seed int64, idx int) interface{} {
		c := schedCase(seed, idx)
		return &RunsRec{Case: c, Kind: "runs", Outcome: "returned", Runs: []Run{}}
	}
}

func schedCase(seed int64, idx int) *Case {
	r := rng4("sched", seed, idx)
	c := detCase(r, []int{0, 2, 3, 3}[idx%4]+4*r.Intn(2))
	return c.nonNil("sched", seed, idx)
}

func recSched(seed int64, idx int) (interface{}, int, []string) {
	c := schedCase(seed, idx)
	r := rand.New(rand.NewSource(seed*1000003 + int64(idx)))
	rec := &RunsRec{Case: c, Kind: "runs", Outcome: "returned", Runs: []Run{}}
	n := len(c.Lines)
	all := oneTo(n)
	rec.Runs = append(rec.Runs, c.asRun("free", 0, all))
	for k := 0; k < 2; k++ {
		rec.Runs = append(rec.Runs, c.scheduled("turns", all, newGate().turn))
		g := newGate()
		g.held = map[int]int{}
		for _, l := range r.Perm(n)[:r.Intn(1+minInt(n, 7))] { // fewer than there are workers
			g.held[l] = 1 + r.Intn(n)
		}
		rec.Runs = append(rec.Runs, c.scheduled("held", all, g.hold))
	}
	intr := 0
	for l, f := range rec.Runs[0].Final {
		if len(f) > 1 && len(f) < len(c.Lines[l])-1 {
			intr = 1
		}
	}
	return rec, intr, sameRuns(rec, "C14")
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
