-------------------------------- MODULE Algo --------------------------------
(* The procedure of constrained simplification as a state machine over an     *)
(* input K (see Topo). The lines are first simplified one after another, each *)
(* on its own: it is decomposed, cut at the protected vertices and subdivided *)
(* until within the threshold; then, in rounds, the fragments in conflict are *)
(* split at a vertex of largest offset until none is; then single segments    *)
(* are merged with a neighbour where that raises no conflict. As a feature    *)
(* class, the fragments of all lines then go through rounds together.         *)
(*                                                                            *)
(* Arithmetic is exact here and floating point in the implementation; where   *)
(* rounding decides (equal offsets, distances equal to a bound) every choice  *)
(* is a behaviour of the machine.                                             *)
EXTENDS Topo

---------------------------------------------------------------------------
(* hulls of two fragments, their common points *)
Extreme(p, H) == \* p, a point of the path, is a corner of its hull H
    \/ H.e = {}
    \/ /\ \E e \in H.e : Same(p, e[1]) \/ Same(p, e[2])
       /\ \A e \in H.e : OnSeg(p, e[1], e[2]) => Same(p, e[1]) \/ Same(p, e[2])
OnH(p, H) == InH(p, H) /\ ~StrictlyInH(p, H)
BoxOf(P) ==
    FoldLeft(LAMBDA b, p : <<MinI(b[1], p[1]), MinI(b[2], p[2]), MaxI(b[3], p[1]), MaxI(b[4], p[2])>>,
             <<P[1][1], P[1][2], P[1][1], P[1][2]>>, P)
BoxesMeet(a, b) == a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]

\* is e reported among the common points of the hulls: surely / possibly
SurelyCommon(e, A, B) ==
    /\ InH(e, A) /\ InH(e, B)
    /\ \/ Extreme(e, A) /\ (A.f \/ ~B.f)
       \/ Extreme(e, B) /\ ~A.f
MaybeCommon(e, A, B) ==
    /\ InH(e, A) /\ InH(e, B)
    /\ Extreme(e, A) \/ Extreme(e, B) \/ (OnH(e, A) /\ OnH(e, B))

EndsOf(P) == {P[1], P[Len(P)]}
Joined(P, Q) == \E a \in EndsOf(P) : \E b \in EndsOf(Q) : Same(a, b)
SurelyContiguous(P, A, Q, B) == Joined(P, Q) /\ \E e \in EndsOf(P) \cup EndsOf(Q) : SurelyCommon(e, A, B)
MaybeContiguous(P, A, Q, B) == Joined(P, Q) /\ \E e \in EndsOf(P) \cup EndsOf(Q) : MaybeCommon(e, A, B)

\* the far end of Q as seen from P
FarEnd(P, Q) ==
    LET i == Q[1] j == Q[Len(Q)] IN
    IF \E a \in EndsOf(P) : Same(a, i) THEN (IF Same(i, j) THEN i ELSE j) ELSE i
\* P (with hull A) cannot be folded onto its chord: Q continues inside its hull
MustUnfold(P, A, Q) == Len(P) > 2 /\ StrictlyInH(FarEnd(P, Q), A)
MayUnfold(P, A, Q) == Len(P) > 2 /\ ~A.f /\ InH(FarEnd(P, Q), A)

(* An outcome is a set of "a", "b": which of the pair is in conflict. *)
ContigOutcomes(P, A, Q, B) ==
    IF A.e = {} \/ B.e = {} THEN {{}} \* no extent: they only have the joint in common
    ELSE {o \in SUBSET {"a", "b"} :
        /\ MustUnfold(P, A, Q) => "a" \in o
        /\ "a" \in o => MayUnfold(P, A, Q)
        /\ MustUnfold(Q, B, P) => "b" \in o
        /\ "b" \in o => MayUnfold(Q, B, P)}

\* common points of two segments, in units of 1/100 (rounded down)
Hundred(p) == <<100 * p[1], 100 * p[2]>>
SegPoints(a, b, c, d) ==
    IF ~SegInter(a, b, c, d) THEN {}
    ELSE IF Proper(a, b, c, d) THEN {CrossPoint(a, b, c, d)}
    ELSE {Hundred(v) : v \in {v \in {a, b} : OnSeg(v, c, d)} \cup {v \in {c, d} : OnSeg(v, a, b)}}
PathPoints(P, Q) ==
    UNION {SegPoints(P[i], P[i+1], Q[j], Q[j+1]) : i \in 1..(Len(P)-1), j \in 1..(Len(Q)-1)}

\* the paths, and their chords, meet in vertices of both only: no coordinate of a common point is rounded
OnlyVertices(P, Q) ==
    /\ ~CrossOffVertex(P[1], P[Len(P)], Q[1], Q[Len(Q)])
    /\ \A i \in 1..(Len(P)-1) : \A j \in 1..(Len(Q)-1) : ~CrossOffVertex(P[i], P[i+1], Q[j], Q[j+1])

NonContigOutcomes(K, P, Q) ==
    LET a == P[1] b == P[Len(P)] c == Q[1] d == Q[Len(Q)]
        segs == SegInter(a, b, c, d)
    IN IF PathsInter(P, Q)
       THEN IF ~segs THEN {{"a", "b"}}
            ELSE IF K.opt.disp >= 400 THEN {{}}
            ELSE LET S == SegPoints(a, b, c, d)
                     X == PathPoints(P, Q)
                     d0 == 100 * K.opt.disp
                     far == \E x \in X : \E s \in S : D2(x, s) > (d0 + 3) * (d0 + 3)
                     near == d0 > 0 /\ \A x \in X : \A s \in S : D2(x, s) < (d0 - 3) * (d0 - 3)
                 IN IF OnlyVertices(P, Q) /\ \A x \in X : \A s \in S : x[1] = s[1] \/ x[2] = s[2]
                    THEN IF \E x \in X : \E s \in S : D2(x, s) > d0 * d0 THEN {{"a", "b"}} ELSE {{}}
                    ELSE (IF far THEN {} ELSE {{}}) \cup (IF near THEN {} ELSE {{"a", "b"}})
       ELSE IF ~segs THEN {{}}
       ELSE IF PathsInter(<<a, b>>, Q) THEN {{"a"}}
       ELSE IF PathsInter(<<c, d>>, P) THEN {{"b"}}
       ELSE {{}}

\* same: stretches of one line
Outcomes(K, same, P, Q) ==
    IF ~BoxesMeet(BoxOf(P), BoxOf(Q)) THEN {{}}
    ELSE LET A == Hull(P) B == Hull(Q) IN
    IF ~HsTouch(P, A, Q, B) THEN {{}}
    ELSE IF ~same THEN NonContigOutcomes(K, P, Q)
    ELSE (IF MaybeContiguous(P, A, Q, B) THEN ContigOutcomes(P, A, Q, B) ELSE {}) \cup
         (IF SurelyContiguous(P, A, Q, B) THEN {} ELSE NonContigOutcomes(K, P, Q))

---------------------------------------------------------------------------
(* relation to the context: surely valid, possibly valid *)
ContextSure(K, l, f) ==
    Size(f) = 1 \/
    /\ K.opt.geom => GeomOK(K, l, f)
    /\ K.opt.dist => DistSurelyOK(K, l, f)
    /\ K.opt.dir => GeomOK(K, l, f) /\ FreeOfObstacles(K, l, f)
ContextMaybe(K, l, f) ==
    Size(f) = 1 \/
    /\ K.opt.geom => GeomOK(K, l, f)
    /\ K.opt.dist => DistOK(K, l, f)
    /\ K.opt.dir => GeomOK(K, l, f) /\ HomotopyOK(K, l, f)

(* Fragments are identified by <<line, fragment>>. *)
All(R, ls) == UNION {{<<l, R[l][k]>> : k \in 1..Len(R[l])} : l \in ls}
StretchOf(K, x) == Stretch(K.lines[x[1]], x[2])

\* the fragments x is compared with
Against(K, R, cls, dirty, x) ==
    (IF cls THEN All(R, {m \in 1..Len(K.lines) : m # x[1] \/ x[1] \in dirty}) ELSE All(R, {x[1]})) \ {x}

\* fragments found in conflict from x: surely / possibly
Judged(K, R, cls, dirty, x) ==
    LET P == StretchOf(K, x)
        out == IF K.opt.avoid
               THEN [y \in Against(K, R, cls, dirty, x) |-> Outcomes(K, x[1] = y[1], P, StretchOf(K, y))]
               ELSE [y \in {} |-> {{}}]
        sure == UNION {LET w == out[y] IN (IF \A o \in w : "a" \in o THEN {x} ELSE {}) \cup
                                           (IF \A o \in w : "b" \in o THEN {y} ELSE {}) : y \in DOMAIN out}
        may == UNION {LET w == out[y] IN (IF \E o \in w : "a" \in o THEN {x} ELSE {}) \cup
                                          (IF \E o \in w : "b" \in o THEN {y} ELSE {}) : y \in DOMAIN out}
    IN [sure |-> sure \cup (IF x \notin may /\ ~ContextMaybe(K, x[1], x[2]) THEN {x} ELSE {}),
        may |-> may \cup (IF x \notin sure /\ ~ContextSure(K, x[1], x[2]) THEN {x} ELSE {})]

Divisible(S) == {x \in S : Size(x[2]) > 1}
Conflicts(K, R, cls, dirty, fresh) ==
    LET js == {Judged(K, R, cls, dirty, x) : x \in fresh} IN
    [sure |-> Divisible(UNION {j.sure : j \in js}), may |-> Divisible(UNION {j.may : j \in js})]

---------------------------------------------------------------------------
(* merging: may f and g, consecutive in R[l], become one fragment            *)
MergeOutcomes(K, R, l, f, g) ==
    LET h == <<f[1], g[2]>>
        x == <<l, h>>
        P == StretchOf(K, x)
        others == All(R, {l}) \ {<<l, f>>, <<l, g>>}
        out == IF K.opt.avoid THEN {Outcomes(K, TRUE, P, StretchOf(K, y)) : y \in others} ELSE {}
        no == \/ ~OffLe(K, l, h)
              \/ \E w \in out : {} \notin w
              \/ ~ContextMaybe(K, l, h)
        yes == /\ OffLe(K, l, h) /\ ~MayExceed(K, l, h)
               /\ \A w \in out : w = {{}}
               /\ ContextSure(K, l, h)
    IN IF no THEN {FALSE} ELSE IF yes THEN {TRUE} ELSE {TRUE, FALSE}

---------------------------------------------------------------------------
CONSTANT Input(_) \* the inputs, by number

VARIABLES
    id,      \* which input
    pc,      \* what is being done
    ln,      \* the line being simplified on its own
    part,    \* the partitions
    open,    \* fragments not yet known to be within the threshold
    fresh,   \* fragments not yet compared with the others
    chosen,  \* fragments to be split
    dirty,   \* lines that were split among the class
    prot,    \* protected vertices of the line
    at,      \* position of the merging pass
    luck     \* decisions so far that rounding may have taken
vars == <<id, pc, ln, part, open, fresh, chosen, dirty, prot, at, luck>>

in == Input(id)

Replace(R, f, s) == \* fragment f of the sequence R by those of s
    LET k == CHOOSE k \in 1..Len(R) : R[k] = f IN SubSeq(R, 1, k-1) \o s \o SubSeq(R, k+1, Len(R))
Leftmost(S) == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[2][1] <= y[2][1])
Class == pc \in {"cround", "csplit", "csettle"}
Constrained(K) == K.opt.avoid \/ K.opt.plan \/ K.opt.geom \/ K.opt.dir \/ K.opt.dist

Whole(K, l) == <<<<0, NV(K.lines[l]) - 1>>>>
Start(k) ==
    /\ id = k /\ pc = "dp" /\ ln = 1
    /\ part = [l \in 1..Len(in.lines) |-> Whole(in, l)] /\ open = {<<1, Whole(in, 1)[1]>>}
    /\ fresh = {} /\ chosen = {} /\ dirty = {} /\ prot = {} /\ at = 1 /\ luck = 0

(* dp: the unconstrained decomposition; cut, settle, round, split, fold: a     *)
(* line on its own; cround, csplit, csettle: the class; done                  *)
Cut ==
    /\ pc = "cut" /\ pc' = "settle"
    /\ prot' = Protected(in, ln)
    /\ part' = [part EXCEPT ![ln] = CutAt(part[ln], prot')]
    /\ open' = All(part', {ln})
    /\ UNCHANGED <<id, ln, fresh, chosen, dirty, at, luck>>

Tied(b) == IF b THEN 1 ELSE 0

\* is k a vertex the implementation may split the fragment at
SplitAt(x) == ArgMax(in.lines[x[1]], in.mode, x[2][1], x[2][2])

Settled == \* the leftmost open fragment is within the threshold
    /\ pc \in {"dp", "settle", "csettle"} /\ open # {}
    /\ LET x == Leftmost(open) IN
        /\ Size(x[2]) = 1 \/ OffLe(in, x[1], x[2])
        /\ open' = open \ {x} /\ fresh' = (IF pc = "dp" THEN {} ELSE fresh \cup {x})
        /\ luck' = luck + Tied(Size(x[2]) > 1 /\ MayExceed(in, x[1], x[2]))
    /\ UNCHANGED <<id, pc, ln, part, chosen, dirty, prot, at>>
Subdivide == \* it is not
    /\ pc \in {"dp", "settle", "csettle"} /\ open # {}
    /\ LET x == Leftmost(open) l == x[1] f == x[2] IN
        /\ Size(f) > 1 /\ MayExceed(in, l, f)
        /\ luck' = luck + Tied(Cardinality(SplitAt(x)) > 1 \/ OffLe(in, l, f))
        /\ \E k \in SplitAt(x) :
            /\ part' = [part EXCEPT ![l] = Replace(part[l], f, <<<<f[1], k>>, <<k, f[2]>>>>)]
            /\ open' = (open \ {x}) \cup {<<l, <<f[1], k>>>>, <<l, <<k, f[2]>>>>}
    /\ UNCHANGED <<id, pc, ln, fresh, chosen, dirty, prot, at>>
Ready ==
    /\ pc \in {"dp", "settle", "csettle"} /\ open = {}
    /\ pc' = (IF pc = "dp" THEN "cut" ELSE IF Class THEN "cround" ELSE "round")
    /\ UNCHANGED <<id, ln, part, open, fresh, chosen, dirty, prot, at, luck>>

Compare == \* a round: which fragments are in conflict with a fresh one
    /\ pc \in {"round", "cround"}
    /\ LET c == Conflicts(in, part, Class, dirty, fresh)
           unsure == c.may \ c.sure
       IN \E s \in (IF Cardinality(unsure) <= 4 THEN SUBSET unsure ELSE {{}, unsure} \cup {{u} : u \in unsure}) :
            /\ chosen' = c.sure \cup s
            /\ luck' = luck + Cardinality(unsure)
            /\ pc' = IF chosen' # {} THEN (IF Class THEN "csplit" ELSE "split")
                     ELSE IF Class THEN "done" ELSE "fold"
    /\ fresh' = {} /\ at' = 1
    /\ UNCHANGED <<id, ln, part, open, dirty, prot>>

Split ==
    /\ pc \in {"split", "csplit"} /\ chosen # {}
    /\ LET x == Leftmost(chosen) l == x[1] f == x[2] IN
        /\ \E k \in SplitAt(x) :
            /\ part' = [part EXCEPT ![l] = Replace(part[l], f, <<<<f[1], k>>, <<k, f[2]>>>>)]
            /\ open' = open \cup {<<l, <<f[1], k>>>>, <<l, <<k, f[2]>>>>}
        /\ luck' = luck + Tied(Cardinality(SplitAt(x)) > 1)
        /\ chosen' = chosen \ {x}
        /\ dirty' = dirty \cup {l}
    /\ pc' = (IF chosen' # {} THEN pc ELSE IF Class THEN "csettle" ELSE "settle")
    /\ UNCHANGED <<id, ln, fresh, prot, at>>

Fold == \* the merging pass, at fragment number `at` of line ln
    /\ pc = "fold" /\ at <= Len(part[ln])
    /\ LET R == part[ln] f == R[at]
           nxt == IF Size(f) = 1 /\ at < Len(R) /\ f[2] \notin prot
                  THEN MergeOutcomes(in, part, ln, f, R[at+1]) ELSE {FALSE}
           prv == IF Size(f) = 1 /\ at > 1 /\ f[1] \notin prot
                  THEN MergeOutcomes(in, part, ln, R[at-1], f) ELSE {FALSE}
       IN /\ luck' = luck + Tied(Cardinality(nxt) > 1) + Tied(FALSE \in nxt /\ Cardinality(prv) > 1)
          /\ \/ /\ TRUE \in nxt
                /\ part' = [part EXCEPT ![ln] = SubSeq(R, 1, at-1) \o <<<<f[1], R[at+1][2]>>>> \o SubSeq(R, at+2, Len(R))]
                /\ at' = at + 1
             \/ /\ FALSE \in nxt /\ TRUE \in prv
                /\ part' = [part EXCEPT ![ln] = SubSeq(R, 1, at-2) \o <<<<R[at-1][1], f[2]>>>> \o SubSeq(R, at+1, Len(R))]
                /\ at' = at
             \/ /\ FALSE \in nxt /\ FALSE \in prv
                /\ at' = at + 1 /\ part' = part
    /\ UNCHANGED <<id, pc, ln, open, fresh, chosen, dirty, prot>>
Simplified == \* line ln has been simplified on its own
    /\ pc = "fold" /\ at > Len(part[ln])
    /\ dirty' = {} /\ prot' = {} /\ at' = 1
    /\ IF ln < Len(in.lines)
       THEN /\ pc' = "dp" /\ ln' = ln + 1 /\ fresh' = {} /\ open' = {<<ln + 1, Whole(in, ln + 1)[1]>>}
       ELSE /\ ln' = ln /\ open' = {}
            /\ IF in.fc /\ Constrained(in) THEN pc' = "cround" /\ fresh' = All(part, 1..Len(in.lines))
               ELSE pc' = "done" /\ fresh' = {}
    /\ UNCHANGED <<id, part, chosen, luck>>

Next == Cut \/ Settled \/ Subdivide \/ Ready \/ Compare \/ Split \/ Fold \/ Simplified
=============================================================================
