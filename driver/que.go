package main

import (
	"runtime"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/TopoSimplify/plugin/node"
)

// QueRec is a concurrent history on the hull queue: per call the moments of invocation and return
type QueRec struct {
	Kind    string  `json:"kind"`
	Idx     int     `json:"idx"`
	Outcome string  `json:"outcome"`
	Ops     []QueOp `json:"ops"`
}
type QueOp struct {
	Op  string `json:"op"`
	Arg int    `json:"arg"` // element, or
	Res int    `json:"res"` // result
	Inv int64  `json:"inv"`
	Ret int64  `json:"ret"`
}

// QueSum is a long concurrent run: what went in, what came out, what was left
type QueSum struct {
	Kind    string `json:"kind"`
	Idx     int    `json:"idx"`
	Outcome string `json:"outcome"`
	In      []int  `json:"in"`
	Out     []int  `json:"out"`
	Left    []int  `json:"left"`
	Size    int    `json:"size"`
}

func init() {
	recorders["que"] = recQue
	recorders["questress"] = recQueStress
	inputs["que"] = func(seed int64, idx int) interface{} { return &QueRec{Kind: "que", Idx: idx, Ops: []QueOp{}} }
	inputs["questress"] = func(seed int64, idx int) interface{} {
		return &QueSum{Kind: "questress", Idx: idx, In: []int{}, Out: []int{}, Left: []int{}}
	}
}

func recQue(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("que", seed, idx)
	q := node.NewQueue()
	rec := &QueRec{Kind: "que", Idx: idx, Outcome: "returned"}
	var clock int64
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }
	do := func(op *QueOp) {
		op.Inv = tick()
		switch op.Op {
		case "append":
			q.Append(node.Node{Id: op.Arg})
		case "appendleft":
			q.AppendLeft(node.Node{Id: op.Arg})
		case "pop":
			op.Res = q.Pop().Id
		case "popleft":
			op.Res = q.PopLeft().Id
		case "first":
			op.Res = q.First().Id
		case "last":
			op.Res = q.Last().Id
		case "size":
			op.Res = q.Size()
		case "clear":
			q.Clear()
		}
		op.Ret = tick()
	}
	procs := 2 + r.Intn(3)
	per := 3 + r.Intn(4)
	sequential := idx%5 == 0
	if sequential {
		procs, per = 1, 4+r.Intn(20)
	}
	clears := oneIn(r, 4)
	next := 1
	names := []string{"append", "appendleft", "pop", "popleft", "pop", "popleft", "first", "last", "size"}
	if clears {
		names = []string{"append", "appendleft", "size", "clear"}
	}
	size := 0
	gen := func() QueOp {
		op := QueOp{Op: names[r.Intn(len(names))]}
		for sequential && size == 0 && (op.Op == "pop" || op.Op == "popleft" || op.Op == "first" || op.Op == "last") {
			op.Op = names[r.Intn(len(names))]
		}
		switch op.Op {
		case "append", "appendleft":
			op.Arg = next
			next++
			size++
		case "pop", "popleft":
			size--
		case "clear":
			size = 0
		}
		return op
	}
	plan := make([][]QueOp, procs)
	if !sequential {
		// enough elements that no call meets an empty queue
		for k := procs*per + 1; k > 0; k-- {
			op := QueOp{Op: "append", Arg: next}
			if flip(r) {
				op.Op = "appendleft"
			}
			next++
			do(&op)
			rec.Ops = append(rec.Ops, op)
			if clears {
				break
			}
		}
	}
	for p := range plan {
		for k := 0; k < per; k++ {
			plan[p] = append(plan[p], gen())
		}
	}
	if procs > 1 && runtime.GOMAXPROCS(0) < 4 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(4))
	}
	var ready int64
	var done sync.WaitGroup
	yields := make([]int, procs)
	for p := range yields {
		yields[p] = r.Intn(5)
	}
	for p := range plan {
		done.Add(1)
		go func(p int) {
			defer done.Done()
			atomic.AddInt64(&ready, 1)
			for n := 0; atomic.LoadInt64(&ready) < int64(procs); n++ { // all at once
				if n > 50000 {
					runtime.Gosched()
				}
			}
			for k := range plan[p] {
				do(&plan[p][k])
				if yields[p] == 1 {
					runtime.Gosched()
				}
			}
		}(p)
	}
	done.Wait()
	for p := range plan {
		rec.Ops = append(rec.Ops, plan[p]...)
	}
	// what is left, taken out one by one
	op := QueOp{Op: "size"}
	do(&op)
	rec.Ops = append(rec.Ops, op)
	for n := op.Res; n > 0 && n < 1000; n-- {
		op := QueOp{Op: []string{"pop", "popleft"}[r.Intn(2)]}
		do(&op)
		rec.Ops = append(rec.Ops, op)
	}
	overlap := 0
	for i := range rec.Ops {
		for j := range rec.Ops {
			a, b := &rec.Ops[i], &rec.Ops[j]
			if i < j && a.Inv < b.Ret && b.Inv < a.Ret {
				overlap++
			}
		}
	}
	return rec, overlap + b2i(sequential), nil
}

// many calls without any other synchronisation (for the race detector), elements conserved
func recQueStress(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("questress", seed, idx)
	q := node.NewQueue()
	rec := &QueSum{Kind: "questress", Idx: idx, Outcome: "returned", In: []int{}, Out: []int{}, Left: []int{}}
	procs, per := 4+r.Intn(5), 40+r.Intn(80)
	next := 1
	for k := procs * per; k > 0; k-- {
		q.Append(node.Node{Id: next})
		rec.In = append(rec.In, next)
		next++
	}
	ins, outs := make([][]int, procs), make([][]int, procs)
	kinds := make([][]int, procs)
	for p := range kinds {
		for k := 0; k < per; k++ {
			kinds[p] = append(kinds[p], r.Intn(9))
		}
	}
	var start, done sync.WaitGroup
	start.Add(1)
	for p := 0; p < procs; p++ {
		done.Add(1)
		go func(p int) {
			defer done.Done()
			start.Wait()
			n := 100000 * (p + 1)
			for _, k := range kinds[p] {
				switch k {
				case 0, 1:
					n++
					q.Append(node.Node{Id: n})
					ins[p] = append(ins[p], n)
				case 2, 3:
					n++
					q.AppendLeft(node.Node{Id: n})
					ins[p] = append(ins[p], n)
				case 4:
					outs[p] = append(outs[p], q.Pop().Id)
				case 5:
					outs[p] = append(outs[p], q.PopLeft().Id)
				case 6:
					q.First()
				case 7:
					q.Last()
				case 8:
					q.Size()
				}
			}
		}(p)
	}
	start.Done()
	done.Wait()
	for p := 0; p < procs; p++ {
		rec.In, rec.Out = append(rec.In, ins[p]...), append(rec.Out, outs[p]...)
	}
	rec.Size = q.Size()
	for n := rec.Size; n > 0; n-- {
		rec.Left = append(rec.Left, q.Pop().Id)
	}
	sort.Ints(rec.In)
	sort.Ints(rec.Out)
	sort.Ints(rec.Left)
	return rec, 1, nil
}
