-------------------------------- MODULE Topo --------------------------------
(* What a constrained line simplification must satisfy, and the steps it is  *)
(* made of, over an input K:                                                 *)
(*   K.lines  sequence of paths; a vertex is <<x, y, t>>                      *)
(*   K.cons   sequence of constraint geometries [type, parts]                *)
(*   K.opt    [T, min, disp, plan, nplan, avoid, geom, dist, dir]            *)
(*   K.mode   "dp" or "sed";  K.fc: simplified as a feature class            *)
(*   K.big    coordinates too large for distance arithmetic                  *)
(* A partition of a line with n vertices is a sequence of fragments <<i, j>> *)
(* of vertex indices counted from 0.                                         *)
EXTENDS Geo, TLC, FiniteSetsExt

NV(L) == Len(L)
V(L, i) == L[i + 1]
Stretch(L, f) == SubSeq(L, f[1] + 1, f[2] + 1)
Chord(L, f) == <<V(L, f[1]), V(L, f[2])>>
Size(f) == f[2] - f[1]

---------------------------------------------------------------------------
(* partitions *)
Tiles(R, n) ==
    /\ Len(R) >= 1
    /\ R[1][1] = 0 /\ R[Len(R)][2] = n - 1
    /\ \A k \in 1..Len(R) : R[k][1] < R[k][2]
    /\ \A k \in 1..(Len(R)-1) : R[k][2] = R[k+1][1]
Cuts(R) == {R[k][1] : k \in 1..Len(R)} \cup {R[k][2] : k \in 1..Len(R)}
CutSeq(R) == [k \in 1..(Len(R)+1) |-> IF k = 1 THEN R[1][1] ELSE R[k-1][2]]

---------------------------------------------------------------------------
(* offsets of inner vertices from a chord, squared, as fractions *)
Off(L, mode, i, k, j) ==
    LET a == V(L, i) b == V(L, j) p == V(L, k) IN
    IF mode = "sed"
    THEN LET dt == b[3] - a[3]
             ex == (p[1]-a[1])*dt - (b[1]-a[1])*(p[3]-a[3])
             ey == (p[2]-a[2])*dt - (b[2]-a[2])*(p[3]-a[3])
         IN <<ex*ex + ey*ey, dt*dt>>
    ELSE PtSeg(p, a, b)

MaxOff(L, mode, i, j) ==
    FoldLeft(LAMBDA m, k : LET r == Off(L, mode, i, i + k, j) IN IF RatLt(m, r) THEN r ELSE m,
             <<0, 1>>, [k \in 1..(j-i-1) |-> k])
ArgMax(L, mode, i, j) ==
    LET m == MaxOff(L, mode, i, j) IN {k \in (i+1)..(j-1) : RatEq(Off(L, mode, i, k, j), m)}

OffLe(K, l, f) == LET m == MaxOff(K.lines[l], K.mode, f[1], f[2]) IN m[1] <= K.opt.T * K.opt.T * m[2]
\* may the largest offset come out above the threshold: it is larger, or equal and subject to rounding
MayExceed(K, l, f) ==
    LET L == K.lines[l]
        m == MaxOff(L, K.mode, f[1], f[2])
        t == K.opt.T * K.opt.T * m[2]
    IN \/ m[1] > t
       \/ m[1] = t /\ \/ K.mode = "sed"
                      \/ \E k \in ArgMax(L, K.mode, f[1], f[2]) : ~ExactDist(V(L, k), V(L, f[1]), V(L, f[2]))

\* The fragments R are produced by the Douglas-Peucker recursion on a fragment f. Where several vertices have
\* the largest offset any of them will do; m remembers what was decided for the fragments met so far.
RECURSIVE DPDecide(_, _, _, _, _)
DPDecide(K, l, R, f, m) ==
    IF f \in DOMAIN m THEN m
    ELSE IF f \in R THEN m @@ (f :> (Size(f) = 1 \/ OffLe(K, l, f)))
    ELSE IF Size(f) = 1 \/ ~MayExceed(K, l, f) THEN m @@ (f :> FALSE)
    ELSE LET ks == ArgMax(K.lines[l], K.mode, f[1], f[2]) \cap {r[2] : r \in R}
             r == FoldSet(LAMBDA k, acc :
                      IF acc.ok THEN acc
                      ELSE LET m1 == DPDecide(K, l, R, <<f[1], k>>, acc.m) IN
                           IF ~m1[<<f[1], k>>] THEN [ok |-> FALSE, m |-> m1]
                           ELSE LET m2 == DPDecide(K, l, R, <<k, f[2]>>, m1) IN [ok |-> m2[<<k, f[2]>>], m |-> m2],
                      [ok |-> FALSE, m |-> m], ks)
         IN r.m @@ (f :> r.ok)
DPExact(K, l, i, j, R) == DPDecide(K, l, ToSet(R), <<i, j>>, [x \in {} |-> TRUE])[<<i, j>>]

---------------------------------------------------------------------------
(* vertices that constraints on intersections protect *)
SelfVertices(L) == {i \in 0..(NV(L)-1) : \E j \in 0..(NV(L)-1) : j # i /\ Same(V(L, i), V(L, j))}
SharedVertices(K, l) ==
    {i \in 0..(NV(K.lines[l])-1) : \E m \in 1..Len(K.lines) : m # l /\
        \E j \in 1..Len(K.lines[m]) : Same(V(K.lines[l], i), K.lines[m][j])}
CrossPairs(L) ==
    {p \in (0..(NV(L)-2)) \X (0..(NV(L)-2)) :
        p[1] < p[2] /\ CrossOffVertex(V(L, p[1]), V(L, p[1]+1), V(L, p[2]), V(L, p[2]+1))}
CrossVertices(L) == UNION {{p[1], p[1]+1, p[2], p[2]+1} : p \in CrossPairs(L)}
Protected(K, l) ==
    (IF K.opt.plan THEN SelfVertices(K.lines[l]) ELSE {}) \cup
    (IF K.opt.nplan THEN CrossVertices(K.lines[l]) ELSE {}) \cup
    (IF K.opt.plan /\ K.fc THEN SharedVertices(K, l) ELSE {})

---------------------------------------------------------------------------
(* relation of a fragment to constraint geometries *)
GeomOK(K, l, f) ==
    LET P == Stretch(K.lines[l], f) C == Chord(K.lines[l], f) IN
    Size(f) = 1 \/ \A c \in 1..Len(K.cons) :
        SegCon(C[1], C[2], K.cons[c]) = PathCon(P, K.cons[c])
\* a stretch farther than the minimum distance must not be replaced by a nearer segment
DistOK(K, l, f) ==
    LET P == Stretch(K.lines[l], f) C == Chord(K.lines[l], f) m2 == K.opt.min * K.opt.min IN
    Size(f) = 1 \/ \A c \in 1..Len(K.cons) :
        SegConLt(C[1], C[2], K.cons[c], m2) => PathConMayLt(P, K.cons[c], m2)
\* certainly so, whatever the rounding of distances equal to the minimum
DistSurelyOK(K, l, f) ==
    LET P == Stretch(K.lines[l], f) C == Chord(K.lines[l], f) m2 == K.opt.min * K.opt.min IN
    Size(f) = 1 \/ m2 = 0 \/ \A c \in 1..Len(K.cons) :
        SegConMayLt(C[1], C[2], K.cons[c], m2) => PathConLt(P, K.cons[c], m2)
Disjoint(K, l, f) == \* constraints disjoint from both stretch and chord
    LET P == Stretch(K.lines[l], f) C == Chord(K.lines[l], f) IN
    {c \in 1..Len(K.cons) : ~SegCon(C[1], C[2], K.cons[c]) /\ ~PathCon(P, K.cons[c])}
Obstacles(K, S) == SortedObs({<<K.cons[c].parts[1][1][1], K.cons[c].parts[1][1][2]>> : c \in S})
HomotopyOK(K, l, f) ==
    Size(f) = 1 \/
    LET obs == Obstacles(K, Disjoint(K, l, f)) IN
    CrossWord(Stretch(K.lines[l], f), obs) = CrossWord(Chord(K.lines[l], f), obs)
\* no other constraint touches the hull of the stretch: nothing the stretch could pass over
FreeOfObstacles(K, l, f) ==
    \A c \in Disjoint(K, l, f) : ~HullTouchesCon(Stretch(K.lines[l], f), K.cons[c])

---------------------------------------------------------------------------
(* pairs of fragments *)
StretchesInter(L, f, M, g) == PathsInter(Stretch(L, f), Stretch(M, g))
ChordsInter(L, f, M, g) ==
    SegInter(V(L, f[1]), V(L, f[2]), V(M, g[1]), V(M, g[2]))
ShareEnd(L, f, M, g) == \E a \in {f[1], f[2]} : \E b \in {g[1], g[2]} : Same(V(L, a), V(M, b))

\* crossings of the stretches lie within disp of the crossing of the chords (to 1/20)
DisplacementOK(K, L, f, M, g) ==
    K.big \/ K.opt.disp >= 400 \/
    LET P == Stretch(L, f) Q == Stretch(M, g)
        s == CrossPoint(V(L, f[1]), V(L, f[2]), V(M, g[1]), V(M, g[2]))
        d == 100 * K.opt.disp + 5
    IN \A i \in 1..(Len(P)-1) : \A j \in 1..(Len(Q)-1) :
         Proper(P[i], P[i+1], Q[j], Q[j+1]) =>
            D2(CrossPoint(P[i], P[i+1], Q[j], Q[j+1]), s) <= d * d

PairOK(K, L, f, M, g) ==
    /\ ChordsInter(L, f, M, g) = StretchesInter(L, f, M, g)
    /\ ChordsInter(L, f, M, g) /\ Proper(V(L, f[1]), V(L, f[2]), V(M, g[1]), V(M, g[2]))
          => DisplacementOK(K, L, f, M, g)

---------------------------------------------------------------------------
(* The properties, of the final partitions F (one per line) *)
P01(K, F, S) == \* S: retained indices per line, ascending
    \A l \in 1..Len(K.lines) : Tiles(F[l], NV(K.lines[l])) /\ S[l] = CutSeq(F[l])
P02(K, F) == K.big \/ \A l \in 1..Len(K.lines) : \A k \in 1..Len(F[l]) : Size(F[l][k]) = 1 \/ OffLe(K, l, F[l][k])
P03(K, B) == K.big \/ \A l \in 1..Len(K.lines) :
    Tiles(B[l], NV(K.lines[l])) /\ DPExact(K, l, 0, NV(K.lines[l]) - 1, B[l])
P04(K, F) == K.opt.plan => \A l \in 1..Len(K.lines) : SelfVertices(K.lines[l]) \subseteq Cuts(F[l])
P05(K, F) == K.opt.nplan => \A l \in 1..Len(K.lines) : CrossVertices(K.lines[l]) \subseteq Cuts(F[l])
P06(K, F) == K.opt.plan /\ K.fc => \A l \in 1..Len(K.lines) :
    SharedVertices(K, l) \cup SelfVertices(K.lines[l]) \subseteq Cuts(F[l])
P07(K, F) == K.opt.avoid => \A l \in 1..Len(K.lines) :
    LET L == K.lines[l] R == F[l] IN
    \A a \in 1..Len(R) : \A b \in (a+2)..Len(R) :
        ShareEnd(L, R[a], L, R[b]) \/ PairOK(K, L, R[a], L, R[b])
P08(K, F) == K.opt.avoid /\ K.fc =>
    \A l \in 1..Len(K.lines) : \A m \in (l+1)..Len(K.lines) :
    \A a \in 1..Len(F[l]) : \A b \in 1..Len(F[m]) : PairOK(K, K.lines[l], F[l][a], K.lines[m], F[m][b])
P09(K, F) == K.opt.geom => \A l \in 1..Len(K.lines) : \A k \in 1..Len(F[l]) : GeomOK(K, l, F[l][k])
P10(K, F) == K.opt.dist /\ ~K.big => \A l \in 1..Len(K.lines) : \A k \in 1..Len(F[l]) : DistOK(K, l, F[l][k])
P11(K, F) == K.opt.dir => \A l \in 1..Len(K.lines) : \A k \in 1..Len(F[l]) :
    GeomOK(K, l, F[l][k]) /\ HomotopyOK(K, l, F[l][k])

\* the stretch of a fragment is folded onto its chord only if the neighbouring fragment
\* leaves its hull: the far end of the neighbour is not strictly inside
\* (far, joint: the ends of the neighbour's chord; a neighbour of no extent has no far end)
NotSwallowed(L, f, joint, far) ==
    Size(f) = 1 \/ Same(V(L, joint), V(L, far)) \/ ~StrictlyInHull(V(L, far), Stretch(L, f))
P30(K, F) == K.opt.avoid => \A l \in 1..Len(K.lines) :
    LET L == K.lines[l] R == F[l] IN
    \A k \in 1..(Len(R)-1) :
       \/ Same(V(L, R[k][1]), V(L, R[k+1][2])) \* a loop: no far end
       \/ /\ NotSwallowed(L, R[k], R[k][2], R[k+1][2])
          /\ NotSwallowed(L, R[k+1], R[k][2], R[k][1])

---------------------------------------------------------------------------
(* C12: fragments at stake. G: the partitions before fragments are checked. *)
\* the stretch Q leaves its end i for good: no piece of it that does not end there can touch it
Parts(Q, i) == ~HullsTouch(<<Q[i]>>, IF i = 1 THEN Tail(Q) ELSE SubSeq(Q, 1, Len(Q) - 1))
\* cls: fragments of all lines count, not only those of the same line
Isolated(K, cls, G, l, k) ==
    LET L == K.lines[l] P == Stretch(L, G[l][k]) IN
    \A m \in (IF cls THEN 1..Len(K.lines) ELSE {l}) : \A q \in 1..Len(G[m]) :
      LET M == K.lines[m] Q == Stretch(M, G[m][q]) IN
      \/ m = l /\ q = k
      \/ IF m = l /\ q = k + 1 THEN HullsMeetOnlyAt(P, Q, V(L, G[l][k][2])) /\ Parts(Q, 1)
         ELSE IF m = l /\ q = k - 1 THEN HullsMeetOnlyAt(P, Q, V(L, G[l][k][1])) /\ Parts(Q, Len(Q))
         ELSE ~HullsTouch(P, Q)
AtStake(K, cls, G, l, k) ==
    LET f == G[l][k] IN
    \/ \E v \in Protected(K, l) : f[1] < v /\ v < f[2]
    \/ (K.opt.geom \/ K.opt.dir) /\ ~GeomOK(K, l, f)
    \/ K.opt.dist /\ ~DistSurelyOK(K, l, f)
    \/ K.opt.dir /\ ~FreeOfObstacles(K, l, f)
    \/ K.opt.avoid /\ ~Isolated(K, cls, G, l, k)
NotSubdivided(f, R) == \A c \in Cuts(R) : c <= f[1] \/ c >= f[2]
P12(K, cls, G, F) == K.big \/ \A l \in 1..Len(K.lines) : \A k \in 1..Len(G[l]) :
    Size(G[l][k]) = 1 \/ NotSubdivided(G[l][k], F[l]) \/ AtStake(K, cls, G, l, k)

---------------------------------------------------------------------------
(* C29: settling of fragments, then the aggregation pass. Both are           *)
(* deterministic unless a maximum or a comparison is tied; "tie" marks that. *)
Tie == <<<<-1, -1>>>>
ThreshTie(K, l, f) == Size(f) > 1 /\ OffLe(K, l, f) /\ MayExceed(K, l, f)
\* relation valid / invalid / rounding may decide
RelValid(K, l, f) ==
    /\ K.opt.geom => GeomOK(K, l, f)
    /\ K.opt.dist => DistSurelyOK(K, l, f)
RelTie(K, l, f) == K.opt.dist /\ DistOK(K, l, f) /\ ~DistSurelyOK(K, l, f)

RECURSIVE Settle(_, _, _)
Settle(K, l, f) ==
    IF Size(f) = 1 THEN <<f>>
    ELSE IF ThreshTie(K, l, f) \/ RelTie(K, l, f) THEN Tie
    ELSE IF OffLe(K, l, f) /\ RelValid(K, l, f) THEN <<f>>
    ELSE LET ks == ArgMax(K.lines[l], K.mode, f[1], f[2]) IN
         IF Cardinality(ks) > 1 THEN Tie
         ELSE LET k == CHOOSE k \in ks : TRUE
                  x == Settle(K, l, <<f[1], k>>)
                  y == Settle(K, l, <<k, f[2]>>)
              IN IF x = Tie \/ y = Tie THEN Tie ELSE x \o y

\* the fragments of partition R cut at the vertices in S
CutAt(R, S) ==
    LET cs == SetToSortSeq(Cuts(R) \cup S, LAMBDA a, b : a < b) IN
    [k \in 1..(Len(cs)-1) |-> <<cs[k], cs[k+1]>>]

SettleAll(K, l, R) ==
    FoldLeft(LAMBDA acc, f : IF acc = Tie THEN Tie
                             ELSE LET s == Settle(K, l, f) IN IF s = Tie THEN Tie ELSE acc \o s,
             <<>>, R)

\* "yes", "no" or "tie"
CanMerge(K, l, f, g) ==
    LET h == <<f[1], g[2]>> IN
    IF ~OffLe(K, l, h) THEN "no"
    ELSE IF ThreshTie(K, l, h) \/ RelTie(K, l, h) THEN "tie"
    ELSE IF RelValid(K, l, h) THEN "yes" ELSE "no"

RECURSIVE Pass(_, _, _, _, _)
Pass(K, l, done, todo, prot) ==
    IF todo = <<>> THEN done
    ELSE LET f == Head(todo)
             rest == Tail(todo)
             nxt == IF Size(f) = 1 /\ rest # <<>> /\ f[2] \notin prot
                    THEN CanMerge(K, l, f, Head(rest)) ELSE "no"
             prv == IF Size(f) = 1 /\ done # <<>> /\ f[1] \notin prot
                    THEN CanMerge(K, l, Last(done), f) ELSE "no"
         IN IF nxt = "tie" THEN Tie
            ELSE IF nxt = "yes" THEN Pass(K, l, Append(done, <<f[1], Head(rest)[2]>>), Tail(rest), prot)
            ELSE IF prv = "tie" THEN Tie
            ELSE IF prv = "yes" THEN Pass(K, l, Append(SubSeq(done, 1, Len(done)-1), <<Last(done)[1], f[2]>>), rest, prot)
            ELSE Pass(K, l, Append(done, f), rest, prot)

Aggregated(K, l, B) == \* of base partition B
    LET prot == Protected(K, l)
        s == SettleAll(K, l, CutAt(B, prot))
    IN IF s = Tie THEN Tie ELSE Pass(K, l, <<>>, s, prot)

Modelled29(K) == ~K.big /\ ~K.opt.avoid /\ ~K.opt.dir
P29(K, B, G) == Modelled29(K) =>
    \A l \in 1..Len(K.lines) : LET r == Aggregated(K, l, B[l]) IN r = Tie \/ r = G[l]
=============================================================================
