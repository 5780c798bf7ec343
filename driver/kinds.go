package main

import (
	"math"
	"math/rand"
	"sort"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/constrain"
	"github.com/TopoSimplify/plugin/ctx"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/knn"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/merge"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/relate"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/TopoSimplify/plugin/split"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
	"github.com/intdxdt/mbr"
)

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	recorders["hdb"] = recHdb
	recorders["hdbbig"] = recHdbBig
	recorders["knn"] = recKnn
	recorders["nodenb"] = recNodeNb
	recorders["offs"] = recOffs
	recorders["split"] = recSplit
	recorders["frag"] = recFrag
	recorders["junc"] = recJunc
	recorders["rel"] = recRel
}

// ------------------------------------------------------------ hull database
type Box [4]int64
type DBOp struct {
	Op    string     `json:"op"`
	Items [][5]int64 `json:"items"` // id, box
	Id    int        `json:"id"`
	Q     Box        `json:"q"`
	K     int        `json:"k"`
	Res   []int      `json:"res"`
	Ok    bool       `json:"ok"`
}
type HdbRec struct {
	Kind string  `json:"kind"`
	Idx  int     `json:"idx"`
	Cap  int     `json:"cap"`
	Ops  []*DBOp `json:"ops"`
}

func rndBox(r *rand.Rand, g int64) Box {
	var x, y = r.Int63n(g + 1), r.Int63n(g + 1)
	var w, h = r.Int63n(1 + g/5), r.Int63n(1 + g/5)
	switch r.Intn(6) {
	case 0:
		w, h = 0, 0
	case 1:
		w = 0
	case 2:
		w, h = r.Int63n(g+1), r.Int63n(g+1)
	}
	return Box{x, y, x + w, y + h}
}

func (b Box) mbr() mbr.MBR {
	return mbr.CreateMBR(float64(b[0]), float64(b[1]), float64(b[2]), float64(b[3]))
}

func (b Box) mbrp() *mbr.MBR { m := b.mbr(); return &m }

func ids(ns []*node.Node) []int {
	var out = make([]int, 0, len(ns))
	for _, n := range ns {
		if n == nil {
			out = append(out, -1)
		} else {
			out = append(out, n.Id)
		}
	}
	return out
}

func boxScore(q *mbr.MBR, o *hdb.KObj) float64 {
	dx := math.Max(0, math.Max(o.MBR.MinX-q.MaxX, q.MinX-o.MBR.MaxX))
	dy := math.Max(0, math.Max(o.MBR.MinY-q.MaxY, q.MinY-o.MBR.MaxY))
	return dx*dx + dy*dy
}

func recHdb(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("hdb", seed, idx)
	return hdbHistory(r, idx, 4+r.Intn(40), 3)
}
func recHdbBig(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("hdbbig", seed, idx)
	return hdbHistory(r, idx, 3+r.Intn(12), 1)
}

func hdbHistory(r *rand.Rand, idx, nops, scale int) (interface{}, int, []string) {
	var caps = []int{0, 2, 3, 4, 5, 8, 9, 16}
	rec := &HdbRec{Kind: "hdb", Idx: idx, Cap: caps[r.Intn(len(caps))]}
	var db *hdb.Hdb
	if rec.Cap == 0 {
		db = hdb.NewHdb()
	} else {
		db = hdb.NewHdb(rec.Cap)
	}
	g := pick(r, 2, 8, 30, 200)
	var held = map[int]*node.Node{}
	var gone []*node.Node
	var next = 1
	var loads, removes = 0, 0
	var order []int
	var doubts int
	doRemove := func(nd *node.Node) {
		db.Remove(nd)
		rec.Ops = append(rec.Ops, &DBOp{Op: "remove", Id: nd.Id})
		removes++
	}
	takeHeld := func() *node.Node {
		for len(order) > 0 {
			k := r.Intn(len(order))
			id := order[k]
			order[k] = order[len(order)-1]
			order = order[:len(order)-1]
			if nd := held[id]; nd != nil {
				delete(held, id)
				return nd
			}
		}
		return nil
	}
	for k := 0; k < nops; k++ {
		switch r.Intn(12) {
		case 0, 1, 2, 3: // load
			n := r.Intn(4)
			switch {
			case scale == 1 && oneIn(r, 2):
				n = 200 + r.Intn(700)
			case oneIn(r, 3):
				n = r.Intn(60)
			}
			op := &DBOp{Op: "load", Items: [][5]int64{}}
			var items = make([]node.Node, 0, n)
			col := oneIn(r, 5)
			// some of what was removed comes back
			back := map[int]bool{}
			if len(gone) > 0 && oneIn(r, 3) {
				for m := 1 + r.Intn(6); m > 0; m-- {
					nd := gone[r.Intn(len(gone))]
					if held[nd.Id] == nil && !back[nd.Id] {
						back[nd.Id] = true
						items = append(items, node.Node{Id: nd.Id, MBR: nd.MBR})
						op.Items = append(op.Items, [5]int64{int64(nd.Id), int64(nd.MBR.MinX), int64(nd.MBR.MinY),
							int64(nd.MBR.MaxX), int64(nd.MBR.MaxY)})
					}
				}
			}
			for i := 0; i < n; i++ {
				b := rndBox(r, g)
				if col {
					b[0], b[2] = 1, 1
				}
				items = append(items, node.Node{Id: next, MBR: b.mbr()})
				op.Items = append(op.Items, [5]int64{int64(next), b[0], b[1], b[2], b[3]})
				next++
			}
			db.Load(items)
			for i := range items {
				held[items[i].Id] = &items[i]
				order = append(order, items[i].Id)
			}
			rec.Ops = append(rec.Ops, op)
			loads += n
		case 4, 5: // remove one
			if nd := takeHeld(); nd != nil {
				doRemove(nd)
				gone = append(gone, nd)
			}
		case 6: // remove many
			for m := r.Intn(2 + len(order)/2); m > 0; m-- {
				if nd := takeHeld(); nd != nil {
					doRemove(nd)
					gone = append(gone, nd)
				}
			}
		case 7: // remove what is not there
			if len(gone) > 0 && flip(r) {
				doRemove(gone[r.Intn(len(gone))])
			} else {
				nd := &node.Node{Id: 1000000 + k, MBR: rndBox(r, g).mbr()}
				db.Remove(nd)
				rec.Ops = append(rec.Ops, &DBOp{Op: "remove", Id: nd.Id})
			}
		case 8:
			if oneIn(r, 4) {
				db.Clear()
				for _, id := range order {
					if held[id] != nil {
						gone = append(gone, held[id])
					}
				}
				held, order = map[int]*node.Node{}, nil
				rec.Ops = append(rec.Ops, &DBOp{Op: "clear"})
			}
		}
		// observe
		q := rndBox(r, g)
		if oneIn(r, 8) {
			q = Box{-1, -1, 2 * g, 2 * g}
		}
		for i, w := range []string{"all", "search", "collides", "knn", "empty"} {
			if !oneIn(r, scale+b2i(i == 0)*2) {
				continue
			}
			op := &DBOp{Op: w, Q: q, Res: []int{}}
			switch w {
			case "all":
				op.Res = ids(db.All())
			case "search":
				op.Res = ids(db.Search(q.mbr()))
			case "collides":
				op.Ok = db.Collides(q.mbr())
			case "knn":
				op.K = r.Intn(8)
				if oneIn(r, 4) {
					op.K = r.Intn(80)
				}
				op.Res = ids(db.Knn(q.mbr(), op.K, boxScore))
			case "empty":
				op.Ok = db.IsEmpty()
			}
			rec.Ops = append(rec.Ops, op)
		}
		// many more queries, kept only when doubtful
		for m := imin(30, 1+len(held)/10); m > 0 && doubts < 3; m-- {
			q := rndBox(r, g)
			op := &DBOp{Op: "knn", Q: q, K: r.Intn(1 + imin(40, len(held)))}
			bad := false
			switch r.Intn(3) {
			case 0:
				op.Op = "search"
				op.Res = ids(db.Search(q.mbr()))
				n := 0
				for _, nd := range held {
					n += b2i(nd.MBR.Intersects(op.Q.mbrp()))
				}
				bad = n != len(op.Res)
			case 1:
				op.Op = "collides"
				op.Ok = db.Collides(q.mbr())
				any := false
				for _, nd := range held {
					any = any || nd.MBR.Intersects(op.Q.mbrp())
				}
				bad = any != op.Ok
			default:
				op.Res = ids(db.Knn(q.mbr(), op.K, boxScore))
				var ds []float64
				for _, nd := range held {
					ds = append(ds, boxScore(op.Q.mbrp(), &hdb.KObj{MBR: &nd.MBR}))
				}
				sort.Float64s(ds)
				want := op.K
				if want == 0 {
					want = len(ds)
				}
				bad = len(op.Res) != want
				for i, id := range op.Res {
					bad = bad || i >= len(ds) || held[id] == nil || boxScore(op.Q.mbrp(), &hdb.KObj{MBR: &held[id].MBR}) != ds[i]
				}
			}
			if bad {
				doubts++
				rec.Ops = append(rec.Ops, op)
			}
		}
	}
	rec.Ops = append(rec.Ops, &DBOp{Op: "all", Res: ids(db.All())})
	var susp []string
	if doubts > 0 {
		susp = []string{"C18"}
	}
	for _, o := range rec.Ops {
		if o.Items == nil {
			o.Items = [][5]int64{}
		}
		if o.Res == nil {
			o.Res = []int{}
		}
	}
	return rec, b2i(loads > 5) + b2i(removes > 0), susp
}

// ------------------------------------------------------- neighbour queries
type KnnRec struct {
	Kind string `json:"kind"`
	Idx  int    `json:"idx"`
	Cons []Con  `json:"cons"`
	Q    []P    `json:"q"`    // path
	Hull bool   `json:"hull"` // query with its hull, else with the path itself
	Dist int64  `json:"dist"` // -1: the default distance
	Res  []int  `json:"res"`  // 1-based, ascending
	Tx   int64  `json:"tx"`
	Ty   int64  `json:"ty"`
	Sc   int    `json:"sc"`
}

func recKnn(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("knn", seed, idx)
	g := pick(r, 6, 12, 30, 60)
	c := &Case{}
	l := anyLine(r, 2+r.Intn(7), g)
	many := false
	c.setLines(r, l)
	c.embed(r)
	for n := r.Intn(4); n >= 0; n-- {
		c.Cons = append(c.Cons, genCons(r, l, g)...)
	}
	if oneIn(r, 4) {
		c.Cons = append(c.Cons, genConRow(r, g)...)
		c.Cons = append(c.Cons, genConRow(r, g)...)
	}
	if oneIn(r, 40) { // a large database, all of it in range or nearly so
		for k := 60 + r.Intn(240); k > 0; k-- {
			c.Cons = append(c.Cons, Con{"point", [][]P{{P{r.Int63n(g + 1), r.Int63n(g + 1)}}}})
		}
		many = true
	}
	rec := &KnnRec{Kind: "knn", Idx: idx, Cons: c.Cons, Q: c.pts(0), Hull: !oneIn(r, 4), Dist: r.Int63n(max64(2, g/2)) - 1, Tx: c.Tx, Ty: c.Ty, Sc: c.Sc}
	if many && flip(r) {
		rec.Dist = 2 * g
	}
	id := iter.NewIgen()
	inst := c.instance(id, 0, c.constraints(), &opts.Opts{})
	var q geom.Geometry
	coords := inst.Coordinates()
	if rec.Hull {
		nd := node.CreateNode(id, coords, rng.Range(0, coords.Len()-1), common.Geometry, inst)
		q = nd.Geom
	} else {
		q = geom.NewLineString(coords)
	}
	dist := c.s(rec.Dist)
	if rec.Dist < 0 {
		dist = knn.EpsilonDist
	}
	rec.Res = []int{}
	for _, nd := range knn.ContextNeighbours(inst.ContextDB, q, dist) {
		rec.Res = append(rec.Res, c.conIndex(nd))
	}
	sort.Ints(rec.Res)
	return rec, b2i(len(rec.Res) > 0 && len(rec.Res) < len(rec.Cons)), nil
}

// 1-based index of the constraint a node stands for; equal constraints share the lowest index
func (c *Case) conIndex(nd *node.Node) int {
	g := nd.Geom.(*ctx.ContextGeometry).Geometry()
	w := g.WKT()
	for i := range c.Cons {
		if c.constraint(&c.Cons[i]).Geometry().WKT() == w {
			return i + 1
		}
	}
	return 0
}

type NodeNbRec struct {
	Kind  string  `json:"kind"`
	Idx   int     `json:"idx"`
	Lines [][]P   `json:"lines"`
	Nodes [][]int `json:"nodes"` // line (1-based), i, j
	Res   [][]int `json:"res"`   // per node, ascending 1-based
}

func recNodeNb(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("nodenb", seed, idx)
	g := pick(r, 5, 10, 25)
	rec := &NodeNbRec{Kind: "nodenb", Idx: idx}
	c := &Case{}
	for k := r.Intn(3); k >= 0; k-- {
		c.setLines(r, anyLine(r, 3+r.Intn(12), g))
	}
	c.embed(r)
	id := iter.NewIgen()
	var ns []node.Node
	for l := range c.Lines {
		rec.Lines = append(rec.Lines, c.pts(l))
		pl := c.polyline(l, "0")
		at, n := 0, len(c.Lines[l])-1
		for at < n {
			to := at + 1 + r.Intn(imin(4, n-at))
			ns = append(ns, node.CreateNode(id, pl.SubCoordinates(rng.Range(at, to)), rng.Range(at, to), common.Geometry, nil))
			rec.Nodes = append(rec.Nodes, []int{l + 1, at, to})
			at = to
		}
	}
	var num = map[int]int{}
	for i := range ns {
		num[ns[i].Id] = i + 1
	}
	db := hdb.NewHdb().Load(ns)
	touch := 0
	for i := range ns {
		res := make([]int, 0)
		for _, o := range knn.NodeNeighbours(db, &ns[i], knn.EpsilonDist) {
			res = append(res, num[o.Id])
		}
		sort.Ints(res)
		touch += len(res)
		rec.Res = append(rec.Res, res)
	}
	return rec, b2i(touch > 2), nil
}

// ----------------------------------------------------------- offset scores
type OffsRec struct {
	Kind string     `json:"kind"`
	Idx  int        `json:"idx"`
	L    [][3]int64 `json:"l"`
	S    int64      `json:"s"` // values are multiplied by s and rounded down
	Fn   []OffsVal  `json:"fn"`
}
type OffsVal struct {
	Name string `json:"name"`
	Mode string `json:"mode"`
	Sq   bool   `json:"sq"`
	K    int    `json:"k"`
	V    int64  `json:"v"`
}

func recOffs(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("offs", seed, idx)
	rec := &OffsRec{Kind: "offs", Idx: idx}
	g := pick(r, 4, 12, 12, 12, 30, 100)
	c := &Case{}
	n := rlen(r, 2, 9, 200)
	l := anyLine(r, n, g)
	if oneIn(r, 5) {
		l = append(l, l[0])
	}
	c.setLines(r, l)
	c.embed(r)
	rec.L = c.Lines[0]
	dt := rec.L[len(rec.L)-1][2] - rec.L[0][2]
	co := c.polyline(0, "0").Coordinates
	// the largest scale whose products stay within 32 bits
	rec.S = 1
	for s := int64(2); s <= 64 && 5*g*g*g*g*s*s < 1<<31 && 3*g*g*dt*dt*s*s < 1<<31; s *= 2 {
		rec.S = s
	}
	for _, f := range []struct {
		name, mode string
		sq         bool
		fn         func(geom.Coords) (int, float64)
	}{
		{"MaxOffset", "dp", false, offset.MaxOffset}, {"SquareMaxOffset", "dp", true, offset.SquareMaxOffset},
		{"MaxSEDOffset", "sed", false, offset.MaxSEDOffset}, {"SqureMaxSEDOffset", "sed", true, offset.SqureMaxSEDOffset},
	} {
		k, v := f.fn(co)
		if f.sq {
			v = math.Ldexp(v, -2*c.Sc)
		} else {
			v = math.Ldexp(v, -c.Sc)
		}
		if !(v >= 0 && v < 1e6) {
			v = -1
		}
		rec.Fn = append(rec.Fn, OffsVal{f.name, f.mode, f.sq, k, int64(math.Floor(v * float64(rec.S)))})
	}
	return rec, b2i(len(rec.L) > 2), nil
}

// ------------------------------------------------------ splitting, merging
type Frag struct {
	R    R          `json:"r"`
	C    [][3]int64 `json:"c"`
	Hull [][3]int64 `json:"hull"`
}
type SplitRec struct {
	Kind  string     `json:"kind"`
	Idx   int        `json:"idx"`
	L     [][3]int64 `json:"l"`
	Mode  string     `json:"mode"`
	F     R          `json:"f"`     // fragment split
	At    []int      `json:"at"`    // indices
	Score []Frag     `json:"score"` // split at the largest offset
	Index []Frag     `json:"index"` // split at the indices
	G     R          `json:"g"`     // merged fragments, as given
	H     R          `json:"h"`
	T     int64      `json:"T"`
	Ok    bool       `json:"ok"`
	M     []Frag     `json:"m"`  // merged fragment, when merged
	MC    [][3]int64 `json:"mc"` // merged coordinates
	MR    R          `json:"mr"` // merged range
}

func (c *Case) frag(n *node.Node) Frag {
	f := Frag{R: R{n.Range.I, n.Range.J}, C: c.grid(n.Coordinates())}
	switch g := n.Geom.(type) {
	case *geom.Polygon:
		f.Hull = c.grid(g.Shell.Coordinates)
	case *geom.LineString:
		f.Hull = c.grid(g.Coordinates)
	case *geom.Point:
		f.Hull = [][3]int64{{c.inv(g[0], c.Tx), c.inv(g[1], c.Ty), 0}}
	case geom.Point:
		f.Hull = [][3]int64{{c.inv(g[0], c.Tx), c.inv(g[1], c.Ty), 0}}
	default:
		f.Hull = [][3]int64{{-1, -1, -1}}
	}
	for i := range f.Hull {
		f.Hull[i][2] = 0
	}
	return f
}

func recSplit(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("split", seed, idx)
	g := pick(r, 4, 10, 30)
	c := &Case{Mode: rndMode(r)}
	l := anyLine(r, 4+large(r, 14, 110), g)
	for len(l) < 4 {
		l = append(l, P{r.Int63n(g + 1), r.Int63n(g + 1)})
	}
	c.setLines(r, l)
	c.embed(r)
	n := len(c.Lines[0]) - 1
	rec := &SplitRec{Kind: "split", Idx: idx, L: c.Lines[0], Mode: c.Mode, Score: []Frag{}, Index: []Frag{}, M: []Frag{}, At: []int{}}
	id := iter.NewIgen()
	pl := c.polyline(0, "0")
	score, sq := scores(c.Mode)
	if flip(r) {
		score = sq
	}
	i := r.Intn(n - 1)
	j := i + 2 + r.Intn(n-i-1)
	rec.F = R{i, j}
	mk := func(a, b int) node.Node {
		return node.CreateNode(id, pl.SubCoordinates(rng.Range(a, b)), rng.Range(a, b), common.Geometry, nil)
	}
	f := mk(i, j)
	ha, hb := split.AtScoreSelection(id, &f, score, common.Geometry)
	rec.Score = []Frag{c.frag(&ha), c.frag(&hb)}
	for k := 1 + large(r, 5, 40); k > 0; k-- {
		rec.At = append(rec.At, r.Intn(n+3)-1)
	}
	rec.At = append(rec.At, i+1+r.Intn(j-i-1)) // at least one inside
	at := append([]int{}, rec.At...)
	r.Shuffle(len(at), func(x, y int) { at[x], at[y] = at[y], at[x] })
	rec.At = append([]int{}, at...)
	for _, s := range split.AtIndex(id, &f, at, common.Geometry) {
		s := s
		rec.Index = append(rec.Index, c.frag(&s))
	}
	// merge
	a := r.Intn(n - 1)
	b := a + 1 + r.Intn(n-a-1)
	d := b + 1 + r.Intn(n-b)
	x, y := mk(a, b), mk(b, d)
	if flip(r) {
		x, y = y, x
	}
	rec.G, rec.H = R{x.Range.I, x.Range.J}, R{y.Range.I, y.Range.J}
	rec.T = r.Int63n(g)
	ms, _ := scores(c.Mode)
	thr := c.s(rec.T)
	ok, m := merge.ContiguousFragmentsAtThreshold(id, ms, &x, &y, func(v float64) bool { return v <= thr }, common.Geometry)
	rec.Ok = ok
	if ok {
		rec.M = []Frag{c.frag(&m)}
	}
	rec.MC = c.grid(merge.ContiguousCoordinates(&x, &y))
	mr := merge.Range(x.Range, y.Range)
	rec.MR = R{mr.I, mr.J}
	return rec, 1, nil
}

// --------------------------------------------------- merging by fragment size
type FragRec struct {
	Kind  string       `json:"kind"`
	Idx   int          `json:"idx"`
	Lines [][][3]int64 `json:"lines"`
	Mode  string       `json:"mode"`
	Opt   Opt          `json:"opt"`
	Big   bool         `json:"big"`
	Part  []R          `json:"part"`
	Prot  []int        `json:"prot"`
	Size  int          `json:"size"`
	Keep  []R          `json:"keep"`
	Rm    []R          `json:"rm"`
	Unm   []R          `json:"unm"` // recorded as not merged
	KeepC [][][3]int64 `json:"keepc"`
}

func recFrag(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("frag", seed, idx)
	g := pick(r, 5, 12, 30)
	c := &Case{Mode: rndMode(r)}
	c.setLines(r, anyLine(r, 3+large(r, 22, 140), g))
	c.embed(r)
	n := len(c.Lines[0]) - 1
	rec := &FragRec{Kind: "frag", Idx: idx, Lines: c.Lines, Mode: c.Mode, Prot: []int{}, Keep: []R{}, Rm: []R{}, KeepC: [][][3]int64{}}
	rec.Size = 1
	if oneIn(r, 4) {
		rec.Size = 1 + r.Intn(3)
	}
	rec.Opt.T = rndT(r, g)
	id := iter.NewIgen()
	pl := c.polyline(0, "0")
	at := 0
	var hulls []node.Node
	for at < n {
		to := at + 1
		if oneIn(r, 2) {
			to = at + 1 + r.Intn(imin(4, n-at))
		}
		hulls = append(hulls, node.CreateNode(id, pl.SubCoordinates(rng.Range(at, to)), rng.Range(at, to), common.Geometry, nil))
		rec.Part = append(rec.Part, R{at, to})
		at = to
	}
	prot := map[int]bool{}
	for v := 0; v <= n; v++ {
		if oneIn(r, 4) {
			prot[v] = true
			rec.Prot = append(rec.Prot, v)
		}
	}
	db := hdb.NewHdb().Load(hulls)
	if oneIn(r, 3) { // in any order
		hulls = append([]node.Node{}, hulls...) // the database keeps its own
		r.Shuffle(len(hulls), func(a, b int) { hulls[a], hulls[b] = hulls[b], hulls[a] })
	}
	score, sq := scores(c.Mode)
	thr := c.s(rec.Opt.T)
	valid := func(v float64) bool { return v <= thr }
	if flip(r) {
		score, valid = sq, func(v float64) bool { return v <= thr*thr }
	}
	unm := map[[2]int]*node.Node{}
	keep, rm := merge.ContiguousFragmentsBySize(id, hulls, db, prot, unm, rec.Size, valid, score, common.Geometry)
	sort.Sort(node.NodePtrs(keep))
	for _, k := range keep {
		rec.Keep = append(rec.Keep, R{k.Range.I, k.Range.J})
		rec.KeepC = append(rec.KeepC, c.grid(k.Coordinates()))
	}
	for _, k := range rm {
		rec.Rm = append(rec.Rm, R{k.Range.I, k.Range.J})
	}
	rec.Unm = []R{}
	for k, n := range unm {
		if n == nil || n.Range.AsArray() != k {
			k[0] = -1
		}
		rec.Unm = append(rec.Unm, R{k[0], k[1]})
	}
	sort.Slice(rec.Unm, func(a, b int) bool { return rec.Unm[a][0] < rec.Unm[b][0] })
	return rec, len(rm), nil
}

// ------------------------------------------- self-intersections, junctions
type JuncRec struct {
	Kind  string       `json:"kind"`
	Idx   int          `json:"idx"`
	Lines [][][3]int64 `json:"lines"`
	Plan  [][][]int    `json:"plan"`  // per line: groups of indices
	NPlan [][][]int    `json:"nplan"` // per line: vertex indices of the pair
	FC    [][]int      `json:"fc"`    // per line: junction indices, ascending
}

func recJunc(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("junc", seed, idx)
	g := pick(r, 2, 4, 9, 25)
	c := &Case{}
	nl := 1 + large(r, 5, 60)
	var pool []P
	for k := 2 + r.Intn(6); k > 0; k-- {
		pool = append(pool, P{r.Int63n(g + 1), r.Int63n(g + 1)})
	}
	for k := 0; k < nl; k++ {
		l := anyLine(r, rlen(r, 2, 9, 40), g)
		for i := range l {
			if oneIn(r, 5) {
				l[i] = pool[r.Intn(len(pool))]
			}
		}
		c.setLines(r, l)
	}
	c.embed(r)
	rec := &JuncRec{Kind: "junc", Idx: idx, Lines: c.Lines}
	var fcs []*lnr.FC
	intr := 0
	for l := range c.Lines {
		pl := c.polyline(l, "0")
		fcs = append(fcs, lnr.NewFC(pl.Coordinates, 7*l+3))
		gs, ps := make([][]int, 0), make([][]int, 0)
		for _, o := range lnr.SelfIntersection(pl, true, false).DataView() {
			gs = append(gs, append(make([]int, 0), o.Meta.Planar...))
		}
		for _, o := range lnr.SelfIntersection(pl, false, true).DataView() {
			ps = append(ps, append(make([]int, 0), o.Meta.NonPlanar...))
		}
		intr += len(gs) + len(ps)
		rec.Plan, rec.NPlan = append(rec.Plan, gs), append(rec.NPlan, ps)
	}
	m := lnr.FCPlanarSelfIntersection(fcs)
	for l := range c.Lines {
		v := append(make([]int, 0), m[7*l+3]...)
		sort.Ints(v)
		intr += len(v)
		rec.FC = append(rec.FC, v)
	}
	return rec, intr, nil
}

// ---------------------------------------------------------- relation tests
type RelRec struct {
	Kind  string       `json:"kind"`
	Idx   int          `json:"idx"`
	Lines [][][3]int64 `json:"lines"`
	Cons  []Con        `json:"cons"`
	Opt   Opt          `json:"opt"`
	F     R            `json:"f"`
	Geom  bool         `json:"geom"`
	Dist  bool         `json:"dist"`
	Dir   bool         `json:"dir"`
}

func recRel(seed int64, idx int) (interface{}, int, []string) {
	r := rng4("rel", seed, idx)
	g := pick(r, 6, 12, 30, 60)
	c := &Case{}
	l := anyLine(r, rlen(r, 3, 9, 30), g)
	for len(l) < 3 {
		l = append(l, P{r.Int63n(g + 1), r.Int63n(g + 1)})
	}
	bulge := oneIn(r, 10)
	if bulge {
		var k Con
		l, k = genBulge(r, g/2)
		c.Cons = append(c.Cons, k)
	}
	c.setLines(r, l)
	c.embed(r)
	n := len(c.Lines[0])
	i, j := 0, n-1
	if !bulge && oneIn(r, 3) {
		i = r.Intn(n - 2)
		j = i + 2 + r.Intn(n-2-i)
	}
	for k := r.Intn(4) + b2i(!bulge); k > 0; k-- {
		if flip(r) {
			c.Cons = append(c.Cons, genConNear(r, l[i:j+1], g))
		} else {
			c.Cons = append(c.Cons, genCon(r, g))
		}
	}
	if oneIn(r, 8) {
		c.Cons = append(c.Cons, genConAround(r, l[i:j+1]))
	}
	if oneIn(r, 8) {
		c.Cons = append(c.Cons, genConCrowd(r, l[i:j+1], g)...)
	} else if oneIn(r, 16) {
		c.Cons = append(c.Cons, genCons(r, l[i:j+1], g)...)
	}
	min := r.Int63n(max64(2, g/3))
	if min > 0 && oneIn(r, 4) {
		c.Cons = append(c.Cons, genConTied(r, l[i:j+1], min))
		if flip(r) {
			c.Cons = c.Cons[len(c.Cons)-1:]
		}
	}
	rec := &RelRec{Kind: "rel", Idx: idx, Lines: c.Lines, Cons: c.Cons, F: R{i, j}}
	rec.Opt.Min = min
	id := iter.NewIgen()
	pl := c.polyline(0, "0")
	nd := node.CreateNode(id, pl.SubCoordinates(rng.Range(i, j)), rng.Range(i, j), common.Geometry, nil)
	cg := ctx.NewContexts()
	for _, k := range c.constraints() {
		cg.Push(ctx.New(k, 0, -1).AsContextNeighbour())
	}
	o := &opts.Opts{MinDist: c.s(rec.Opt.Min)}
	if flip(r) {
		rec.Geom, rec.Dist, rec.Dir = relate.IsGeomRelateValid(&nd, cg), relate.IsDistRelateValid(o, &nd, cg), relate.IsDirRelateValid(&nd, cg)
	} else {
		rec.Geom, rec.Dist, rec.Dir = constrain.ByGeometricRelation(&nd, cg), constrain.ByMinDistRelation(o, &nd, cg), constrain.BySideRelation(&nd, cg)
	}
	return rec, b2i(!rec.Geom) + b2i(!rec.Dist) + b2i(!rec.Dir), nil
}
