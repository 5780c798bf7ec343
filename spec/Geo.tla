-------------------------------- MODULE Geo --------------------------------
(* Exact plane geometry over integer coordinates.                           *)
(* A point is a sequence <<x, y, ...>>; further components (time, z) are    *)
(* ignored here. A path is a sequence of points. Every operator is exact:   *)
(* distances are compared through squared integers or fractions <<n, d>>.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
AbsI(a)    == IF a < 0 THEN -a ELSE a
Sgn(a)     == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

Same(p, q) == p[1] = q[1] /\ p[2] = q[2]
D2(p, q)   == (p[1]-q[1])*(p[1]-q[1]) + (p[2]-q[2])*(p[2]-q[2])
Cross(a, b, c) == (b[1]-a[1])*(c[2]-a[2]) - (b[2]-a[2])*(c[1]-a[1])
Dot(a, b, p)   == (b[1]-a[1])*(p[1]-a[1]) + (b[2]-a[2])*(p[2]-a[2])

InBox(p, a, b) ==
    /\ IF a[1] < b[1] THEN a[1] <= p[1] /\ p[1] <= b[1] ELSE b[1] <= p[1] /\ p[1] <= a[1]
    /\ IF a[2] < b[2] THEN a[2] <= p[2] /\ p[2] <= b[2] ELSE b[2] <= p[2] /\ p[2] <= a[2]

OnSeg(p, a, b) == InBox(p, a, b) /\ Cross(a, b, p) = 0

BoxesApart(a, b, c, d) ==
    \/ MaxI(a[1], b[1]) < MinI(c[1], d[1]) \/ MaxI(c[1], d[1]) < MinI(a[1], b[1])
    \/ MaxI(a[2], b[2]) < MinI(c[2], d[2]) \/ MaxI(c[2], d[2]) < MinI(a[2], b[2])

\* the interiors of the two segments cross
Proper(a, b, c, d) ==
    /\ ~BoxesApart(a, b, c, d)
    /\ Sgn(Cross(a, b, c)) * Sgn(Cross(a, b, d)) < 0
    /\ Sgn(Cross(c, d, a)) * Sgn(Cross(c, d, b)) < 0

\* the closed segments share a point
SegInter(a, b, c, d) ==
    /\ ~BoxesApart(a, b, c, d)
    /\ \/ Proper(a, b, c, d)
       \/ OnSeg(c, a, b) \/ OnSeg(d, a, b) \/ OnSeg(a, c, d) \/ OnSeg(b, c, d)

\* the segments share a point that is not an end point of both
CrossOffVertex(a, b, c, d) ==
    /\ ~BoxesApart(a, b, c, d)
    /\ \/ Proper(a, b, c, d)
       \/ \E v \in {a, b} : ~Same(v, c) /\ ~Same(v, d) /\ OnSeg(v, c, d)
       \/ \E v \in {c, d} : ~Same(v, a) /\ ~Same(v, b) /\ OnSeg(v, a, b)

PathsInter(P, Q) ==
    \E i \in 1..(Len(P)-1) : \E j \in 1..(Len(Q)-1) : SegInter(P[i], P[i+1], Q[j], Q[j+1])

---------------------------------------------------------------------------
(* fractions <<n, d>> with n >= 0, d > 0 *)
RatEq(r, s) == IF r[2] = s[2] THEN r[1] = s[1] ELSE r[1] * s[2] = s[1] * r[2]
RatLt(r, s) == IF r[2] = s[2] THEN r[1] < s[1] ELSE r[1] * s[2] < s[1] * r[2]

\* squared distance of a point from a closed segment
PtSeg(p, a, b) ==
    LET l == D2(a, b)
        t == Dot(a, b, p)
    IN IF l = 0 \/ t <= 0 THEN <<D2(p, a), 1>>
       ELSE IF t >= l THEN <<D2(p, b), 1>>
       ELSE LET c == Cross(a, b, p) IN <<c * c, l>>

\* is that squared distance < / > / <= the integer m2
PtSegLt(p, a, b, m2) == LET r == PtSeg(p, a, b) IN r[1] < m2 * r[2]
PtSegGt(p, a, b, m2) == LET r == PtSeg(p, a, b) IN r[1] > m2 * r[2]
PtSegLe(p, a, b, m2) == LET r == PtSeg(p, a, b) IN r[1] <= m2 * r[2]

\* The distance of p from the segment is a difference of coordinates: floating point gives it exactly.
ExactDist(p, a, b) ==
    LET l == D2(a, b)
        t == Dot(a, b, p)
    IN \/ Same(p, a) \/ Same(p, b)
       \/ IF l = 0 \/ t <= 0 THEN p[1] = a[1] \/ p[2] = a[2]
          ELSE IF t >= l THEN p[1] = b[1] \/ p[2] = b[2]
          ELSE (a[1] = b[1] /\ p[1] # a[1]) \/ (a[2] = b[2] /\ p[2] # a[2])
\* may that distance come out < sqrt(m2), equal ones included unless exact
PtSegMayLt(p, a, b, m2) ==
    LET r == PtSeg(p, a, b) IN r[1] < m2 * r[2] \/ (r[1] = m2 * r[2] /\ ~ExactDist(p, a, b))

SegSegLt(a, b, c, d, m2) ==
    /\ m2 > 0
    /\ \/ SegInter(a, b, c, d)
       \/ PtSegLt(a, c, d, m2) \/ PtSegLt(b, c, d, m2) \/ PtSegLt(c, a, b, m2) \/ PtSegLt(d, a, b, m2)
SegSegMayLt(a, b, c, d, m2) ==
    /\ m2 > 0
    /\ \/ SegInter(a, b, c, d)
       \/ PtSegMayLt(a, c, d, m2) \/ PtSegMayLt(b, c, d, m2) \/ PtSegMayLt(c, a, b, m2) \/ PtSegMayLt(d, a, b, m2)
SegSegLe(a, b, c, d, m2) ==
    \/ SegInter(a, b, c, d)
    \/ PtSegLe(a, c, d, m2) \/ PtSegLe(b, c, d, m2) \/ PtSegLe(c, a, b, m2) \/ PtSegLe(d, a, b, m2)

---------------------------------------------------------------------------
(* rings (closed: first point repeated last) and constraint geometries      *)
OnRing(p, r) == \E i \in 1..(Len(r)-1) : OnSeg(p, r[i], r[i+1])
InRing(p, r) == \* strictly inside
    /\ ~OnRing(p, r)
    /\ Cardinality({i \in 1..(Len(r)-1) :
            LET a == r[i] b == r[i+1] IN
            /\ (a[2] > p[2]) # (b[2] > p[2])
            /\ (b[2] > a[2]) = (Cross(a, b, p) > 0)}) % 2 = 1

\* a polygon covers its shell without the interiors of its holes
InPolygon(p, c) ==
    /\ OnRing(p, c.parts[1]) \/ InRing(p, c.parts[1])
    /\ \A h \in 2..Len(c.parts) : ~InRing(p, c.parts[h])

\* does the closed segment meet the constraint geometry
SegCon(a, b, c) ==
    CASE c.type = "point"   -> OnSeg(c.parts[1][1], a, b)
      [] c.type = "line"    -> PathsInter(<<a, b>>, c.parts[1])
      [] c.type = "polygon" -> \/ \E h \in 1..Len(c.parts) : PathsInter(<<a, b>>, c.parts[h])
                               \/ InPolygon(a, c)

PathCon(P, c) == \E i \in 1..(Len(P)-1) : SegCon(P[i], P[i+1], c)

\* is the distance of the segment from the constraint geometry < (<=) sqrt(m2)
SegConLt(a, b, c, m2) ==
    /\ m2 > 0
    /\ IF c.type = "point" THEN PtSegLt(c.parts[1][1], a, b, m2)
       ELSE \/ SegCon(a, b, c)
            \/ \E h \in 1..Len(c.parts) : \E i \in 1..(Len(c.parts[h])-1) :
                   SegSegLt(a, b, c.parts[h][i], c.parts[h][i+1], m2)
SegConMayLt(a, b, c, m2) == \* may it come out so
    /\ m2 > 0
    /\ IF c.type = "point" THEN PtSegMayLt(c.parts[1][1], a, b, m2)
       ELSE \/ SegCon(a, b, c)
            \/ \E h \in 1..Len(c.parts) : \E i \in 1..(Len(c.parts[h])-1) :
                   SegSegMayLt(a, b, c.parts[h][i], c.parts[h][i+1], m2)
SegConLe(a, b, c, m2) ==
    IF c.type = "point" THEN PtSegLe(c.parts[1][1], a, b, m2)
    ELSE \/ SegCon(a, b, c)
         \/ \E h \in 1..Len(c.parts) : \E i \in 1..(Len(c.parts[h])-1) :
                SegSegLe(a, b, c.parts[h][i], c.parts[h][i+1], m2)
PathConLt(P, c, m2) == \E i \in 1..(Len(P)-1) : SegConLt(P[i], P[i+1], c, m2)
PathConMayLt(P, c, m2) == \E i \in 1..(Len(P)-1) : SegConMayLt(P[i], P[i+1], c, m2)
PathConLe(P, c, m2) == \E i \in 1..(Len(P)-1) : SegConLe(P[i], P[i+1], c, m2)

---------------------------------------------------------------------------
(* convex hulls of the points of a path: e, oriented edges between points of  *)
(* the path (every point lies on or to the left of each), f: no extent in two *)
(* dimensions, o: a point                                                     *)
HullEdges(P) ==
    LET ps == {<<p[1], p[2]>> : p \in ToSet(P)} IN
    IF Len(P) = 2 /\ ~Same(P[1], P[2]) THEN {<<q, r>> : q \in ps, r \in ps} \ {<<q, q>> : q \in ps}
    ELSE {e \in ps \X ps : e[1] # e[2] /\ \A r \in ps : Cross(e[1], e[2], r) >= 0}
Hull(P) ==
    LET es == HullEdges(P) IN
    [e |-> es, o |-> P[1], f |-> es = {} \/ \E e \in es : <<e[2], e[1]>> \in es]
InH(p, H) ==
    IF H.e = {} THEN Same(p, H.o)
    ELSE IF H.f THEN \E e \in H.e : OnSeg(p, e[1], e[2])
    ELSE \A e \in H.e : Cross(e[1], e[2], p) >= 0
IsFlat(P) == Hull(P).f
InHull(p, P) == InH(p, Hull(P))

\* inside the hull and not on its boundary
StrictlyInH(p, H) == ~H.f /\ \A e \in H.e : Cross(e[1], e[2], p) > 0
StrictlyInHull(p, P) == StrictlyInH(p, Hull(P))

\* the hulls of the paths share a point
HsTouch(P, A, Q, B) ==
    \/ \E e \in A.e : \E f \in B.e : SegInter(e[1], e[2], f[1], f[2])
    \/ \E i \in 1..Len(P) : InH(P[i], B)
    \/ \E i \in 1..Len(Q) : InH(Q[i], A)
HullsTouch(P, Q) == LET A == Hull(P) B == Hull(Q) IN HsTouch(P, A, Q, B)

\* the hulls share no point but (possibly) v
HullsMeetOnlyAt(P, Q, v) ==
    LET A == Hull(P) B == Hull(Q) IN
    /\ \A e \in A.e : \A f \in B.e :
          SegInter(e[1], e[2], f[1], f[2]) =>
             /\ OnSeg(v, e[1], e[2]) /\ OnSeg(v, f[1], f[2])
             /\ ~Proper(e[1], e[2], f[1], f[2])
             /\ \A w \in {e[1], e[2]} : OnSeg(w, f[1], f[2]) => Same(w, v)
             /\ \A w \in {f[1], f[2]} : OnSeg(w, e[1], e[2]) => Same(w, v)
    /\ \A i \in 1..Len(P) : InH(P[i], B) => Same(P[i], v)
    /\ \A i \in 1..Len(Q) : InH(Q[i], A) => Same(Q[i], v)

HullTouchesCon(P, c) ==
    LET A == Hull(P) IN
    \/ \E e \in A.e : SegCon(e[1], e[2], c)
    \/ \E h \in 1..Len(c.parts) : \E i \in 1..Len(c.parts[h]) : InH(c.parts[h][i], A)
    \/ A.e = {} /\ SegCon(P[1], P[1], c)

---------------------------------------------------------------------------
\* no three points collinear, no two equal
GeneralPosition(ps) ==
    LET n == Len(ps) IN
    \A i \in 1..n : \A j \in (i+1)..n :
        /\ ~Same(ps[i], ps[j])
        /\ \A k \in (j+1)..n : Cross(ps[i], ps[j], ps[k]) # 0

\* point of a proper crossing, in units of 1/100 (rounded down)
CrossPoint(a, b, c, d) ==
    LET den0 == (b[1]-a[1])*(d[2]-c[2]) - (b[2]-a[2])*(d[1]-c[1])
        num0 == (c[1]-a[1])*(d[2]-c[2]) - (c[2]-a[2])*(d[1]-c[1])
        den  == AbsI(den0)
        num  == IF den0 < 0 THEN -num0 ELSE num0
    IN << 100*a[1] + (100*num*(b[1]-a[1])) \div den,
          100*a[2] + (100*num*(b[2]-a[2])) \div den >>

---------------------------------------------------------------------------
(* Homotopy of paths in the plane minus finitely many obstacle points: the   *)
(* fundamental group is free; a path is the reduced word of its crossings    *)
(* with the upward rays of the obstacles. Rays are shifted right by an       *)
(* infinitesimal, so that of two obstacles on one vertical the upper is met  *)
(* first going right... its ray and the lower one's coincide above it: the    *)
(* order among them must only be the same for all paths.                     *)
ObsBefore(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] > q[2])
SortedObs(S) == SetToSortSeq(S, ObsBefore)

PushLetter(w, x) ==
    IF Len(w) > 0 /\ w[Len(w)] = -x THEN SubSeq(w, 1, Len(w)-1) ELSE Append(w, x)

\* letters of one segment: obstacles below it whose ray it crosses, in order
SegLetters(a, b, obs) ==
    IF a[1] <= b[1]
    THEN FoldLeft(LAMBDA acc, o :
            IF a[1] <= obs[o][1] /\ obs[o][1] < b[1] /\ Cross(a, b, obs[o]) < 0
            THEN Append(acc, o) ELSE acc, <<>>, [o \in 1..Len(obs) |-> o])
    ELSE FoldLeft(LAMBDA acc, o :
            IF b[1] <= obs[o][1] /\ obs[o][1] < a[1] /\ Cross(b, a, obs[o]) < 0
            THEN Append(acc, -o) ELSE acc, <<>>, [o \in 1..Len(obs) |-> Len(obs) + 1 - o])

CrossWord(P, obs) ==
    FoldLeft(LAMBDA w, i : FoldLeft(PushLetter, w, SegLetters(P[i], P[i+1], obs)),
             <<>>, [i \in 1..(Len(P)-1) |-> i])
=============================================================================
