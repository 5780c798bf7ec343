----------------------------- MODULE PartsTrace -----------------------------
(* The parts a simplification is built from, one recorded call each:         *)
(* C13 relations, C19 splitting and merging, C20 merging by size, C25        *)
(* detection of intersections, C26 neighbours, C27 offset scores.            *)
EXTENDS Topo, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
Wanted == ToSet(ndJsonDeserialize(IOEnv.VP_PROPS)[1].props)
VARIABLES tid, step
vars == <<tid, step>>
T == Traces[tid]
Clause(p, name, ok) == IF p \notin Wanted \/ ok THEN TRUE ELSE PrintT("REJECT " \o p \o " " \o ToString(tid) \o " " \o name)

Init == tid \in 1..Len(Traces) /\ step = "call"
Return(kind) == step = "call" /\ T.kind = kind /\ step' = "returned" /\ UNCHANGED tid

---------------------------------------------------------------------------
\* C13
Relate ==
    /\ Return("rel")
    /\ Clause("C13", "geometric", T.geom = GeomOK(T, 1, T.f))
    /\ Clause("C13", "distance-unsound", T.dist => DistOK(T, 1, T.f))
    /\ Clause("C13", "distance-refused", DistSurelyOK(T, 1, T.f) => T.dist)
    /\ Clause("C13", "homotopy-unsound", T.dir => HomotopyOK(T, 1, T.f))
    /\ Clause("C13", "homotopy-refused", GeomOK(T, 1, T.f) /\ FreeOfObstacles(T, 1, T.f) => T.dir)

---------------------------------------------------------------------------
\* C19
K19 == [lines |-> <<T.l>>, mode |-> T.mode, opt |-> [T |-> T.T]]
FragOK(fr) ==
    LET P == Stretch(T.l, fr.r) IN
    /\ fr.c = P
    /\ Len(fr.hull) >= 1
    /\ \A k \in 1..Len(fr.hull) : \E i \in 1..Len(P) : Same(fr.hull[k], P[i])
    /\ \A i \in 1..Len(P) : InHull(P[i], fr.hull)
Ranges(fs) == [k \in 1..Len(fs) |-> fs[k].r]
TilesRange(R, f) ==
    /\ Len(R) >= 1 /\ R[1][1] = f[1] /\ R[Len(R)][2] = f[2]
    /\ \A k \in 1..Len(R) : R[k][1] < R[k][2]
    /\ \A k \in 1..(Len(R)-1) : R[k][2] = R[k+1][1]
Union2(g, h) == <<MinI(g[1], h[1]), MaxI(g[2], h[2])>>
SplitMerge ==
    /\ Return("split")
    /\ Clause("C19", "at-score", /\ TilesRange(Ranges(T.score), T.f)
                                 /\ Len(T.score) = 2
                                 /\ T.score[1].r[2] \in ArgMax(T.l, T.mode, T.f[1], T.f[2])
                                 /\ \A k \in 1..2 : FragOK(T.score[k]))
    /\ Clause("C19", "at-index", /\ TilesRange(Ranges(T.index), T.f)
                                 /\ Cuts(Ranges(T.index)) = {T.f[1], T.f[2]} \cup {i \in ToSet(T.at) : T.f[1] < i /\ i < T.f[2]}
                                 /\ \A k \in 1..Len(T.index) : FragOK(T.index[k]))
    /\ LET u == Union2(T.g, T.h) IN
       /\ Clause("C19", "merge-range", T.mr = u)
       /\ Clause("C19", "merge-coordinates", T.mc = Stretch(T.l, u))
       /\ Clause("C19", "merge-refused", OffLe(K19, 1, u) /\ ~MayExceed(K19, 1, u) => T.ok)
       /\ Clause("C19", "merge-accepted", T.ok => OffLe(K19, 1, u))
       /\ Clause("C19", "merge", T.ok => T.m[1].r = u /\ FragOK(T.m[1]))

---------------------------------------------------------------------------
\* C20
Mergeable(f, g) == \* f, g contiguous in this order
    /\ f[2] = g[1] /\ f[2] \notin ToSet(T.prot)
    /\ Size(f) = T.size \/ Size(g) = T.size
SurelyOK(h) == OffLe(T, 1, h) /\ ~MayExceed(T, 1, h)
FragSize ==
    /\ Return("frag")
    /\ LET P == ToSet(T.part) K == ToSet(T.keep) R == ToSet(T.rm)
           after == SetToSortSeq((P \ R) \cup K, LAMBDA a, b : a[1] < b[1])
       IN /\ Clause("C20", "tiles", Tiles(after, NV(T.lines[1])))
          /\ Clause("C20", "once", Len(T.rm) = Cardinality(R) /\ Len(T.keep) = Cardinality(K) /\ R \subseteq P)
          /\ Clause("C20", "pairs", \A h \in K \ P : \E f \in R : \E g \in R :
                /\ Mergeable(f, g) /\ h = <<f[1], g[2]>> /\ OffLe(T, 1, h))
          /\ Clause("C20", "balance", 2 * Cardinality(K \ P) = Cardinality(R))
          /\ Clause("C20", "coordinates", \A k \in 1..Len(T.keep) : T.keepc[k] = Stretch(T.lines[1], T.keep[k]))
          /\ Clause("C20", "unmerged-of-size", \A f \in ToSet(T.unm) : f \in P \ R /\ Size(f) = T.size)
          /\ Clause("C20", "unmerged-missed", \A f \in P \ R : \A g \in P \ R :
                Size(f) = T.size /\ (f[2] = g[1] \/ g[2] = f[1]) => f \in ToSet(T.unm))
          /\ Clause("C20", "left-over", \A f \in P \ R : \A g \in P \ R :
                Mergeable(f, g) => ~SurelyOK(<<f[1], g[2]>>))

---------------------------------------------------------------------------
\* C25
Groups(L) == {{j \in 0..(NV(L)-1) : Same(V(L, i), V(L, j))} : i \in SelfVertices(L)}
PairsOf(L) == {{p[1], p[1]+1, p[2], p[2]+1} : p \in CrossPairs(L)}
Detect ==
    /\ Return("junc")
    /\ \A l \in 1..Len(T.lines) : LET L == T.lines[l] IN
        /\ Clause("C25", "planar", /\ {ToSet(g) : g \in ToSet(T.plan[l])} = Groups(L)
                                   /\ Len(T.plan[l]) = Cardinality(Groups(L))
                                   /\ \A k \in 1..Len(T.plan[l]) : Len(T.plan[l][k]) = Cardinality(ToSet(T.plan[l][k])))
        /\ Clause("C25", "non-planar", {ToSet(g) : g \in ToSet(T.nplan[l])} = PairsOf(L))
        /\ Clause("C25", "junctions", /\ ToSet(T.fc[l]) = SelfVertices(L) \cup SharedVertices(T, l)
                                      /\ Len(T.fc[l]) = Cardinality(ToSet(T.fc[l])))

---------------------------------------------------------------------------
\* C26
HullLe(P, c, m2) == \/ HullTouchesCon(P, c)
                    \/ HullEdges(P) = {} /\ SegConLe(P[1], P[1], c, m2)
                    \/ \E e \in HullEdges(P) : SegConLe(e[1], e[2], c, m2)
HullLt(P, c, m2) == m2 > 0 /\ (\/ HullTouchesCon(P, c)
                               \/ HullEdges(P) = {} /\ SegConLt(P[1], P[1], c, m2)
                               \/ \E e \in HullEdges(P) : SegConLt(e[1], e[2], c, m2))
HullMayLt(P, c, m2) == m2 > 0 /\ (\/ HullTouchesCon(P, c)
                                  \/ HullEdges(P) = {} /\ SegConMayLt(P[1], P[1], c, m2)
                                  \/ \E e \in HullEdges(P) : SegConMayLt(e[1], e[2], c, m2))
QLe(c, m2) == IF T.hull THEN HullLe(T.q, c, m2)
              ELSE IF Len(T.q) = 1 THEN SegConLe(T.q[1], T.q[1], c, m2) ELSE PathConLe(T.q, c, m2)
QLt(c, m2) == IF T.hull THEN HullLt(T.q, c, m2)
              ELSE IF Len(T.q) = 1 THEN SegConLt(T.q[1], T.q[1], c, m2) ELSE PathConLt(T.q, c, m2)
QMayLt(c, m2) == IF T.hull THEN HullMayLt(T.q, c, m2)
                 ELSE IF Len(T.q) = 1 THEN SegConMayLt(T.q[1], T.q[1], c, m2) ELSE PathConMayLt(T.q, c, m2)
\* the distance equals the limit, exactly (with few constraints: distances to the boxes of a
\* larger index may come out beyond it)
ExactTie(c, m2) == m2 > 0 /\ Len(T.cons) <= 8 /\ QLe(c, m2) /\ ~QMayLt(c, m2)
FirstLike(i) == CHOOSE j \in 1..i : T.cons[j] = T.cons[i] /\ \A k \in 1..(j-1) : T.cons[k] # T.cons[i]
Times(i) == Cardinality({k \in 1..Len(T.res) : T.res[k] = i})
Copies(i) == Cardinality({k \in 1..Len(T.cons) : T.cons[k] = T.cons[i]})
Context ==
    /\ Return("knn")
    /\ Clause("C26", "context-known", \A k \in 1..Len(T.res) : T.res[k] \in 1..Len(T.cons))
    /\ LET d == IF T.dist < 0 THEN 0 ELSE T.dist m2 == d * d IN
       \A i \in 1..Len(T.cons) : FirstLike(i) = i =>
        /\ Clause("C26", "context-missed",
              (QLt(T.cons[i], m2) \/ (d = 0 /\ QLe(T.cons[i], 0)) \/ ExactTie(T.cons[i], m2)) => Times(i) = Copies(i))
        /\ Clause("C26", "context-wrong", Times(i) > 0 => QLe(T.cons[i], m2))

NodeNb ==
    /\ Return("nodenb")
    /\ LET S(k) == Stretch(T.lines[T.nodes[k][1]], <<T.nodes[k][2], T.nodes[k][3]>>) IN
       \A k \in 1..Len(T.nodes) :
         /\ Clause("C26", "hulls", ToSet(T.res[k]) = {m \in 1..Len(T.nodes) : m # k /\ HullsTouch(S(k), S(m))})
         /\ Clause("C26", "hulls-once", Len(T.res[k]) = Cardinality(ToSet(T.res[k])))

---------------------------------------------------------------------------
\* C27: val is floor(value * s); rounding may move it by one
ValueOK(fn, m, s) ==
    LET q == fn.v IN
    /\ q >= 0
    /\ IF fn.sq
       THEN (q - 1) * m[2] <= m[1] * s /\ m[1] * s <= (q + 2) * m[2]
       ELSE (q = 0 \/ (q - 1) * (q - 1) * m[2] <= m[1] * s * s) /\ m[1] * s * s <= (q + 2) * (q + 2) * m[2]
Offsets ==
    /\ Return("offs")
    /\ \A k \in 1..Len(T.fn) :
        LET fn == T.fn[k] n == NV(T.l) IN
        IF n = 2 THEN Clause("C27", fn.name \o "-segment", fn.v = 0)
        ELSE /\ Clause("C27", fn.name \o "-index", fn.k \in ArgMax(T.l, fn.mode, 0, n - 1))
             /\ Clause("C27", fn.name \o "-value", ValueOK(fn, MaxOff(T.l, fn.mode, 0, n - 1), T.s))

Next == Relate \/ SplitMerge \/ FragSize \/ Detect \/ Context \/ NodeNb \/ Offsets
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("distinct") = 2 * Len(Traces)
=============================================================================
