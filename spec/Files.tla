-------------------------------- MODULE Files --------------------------------
(* The files of the tool: what the readers make of an input file (C28), and  *)
(* what a run of the tool writes or refuses to write (C22, C23).             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

---------------------------------------------------------------------------
(* readers: a reader takes the lines of the file one after the other.        *)
\* a position with two numbers has elevation 0, which is pool number 0
P3(p) == IF Len(p) = 2 THEN <<p[1], p[2], 0>> ELSE p
Path3(ps) == [i \in 1..Len(ps) |-> P3(ps[i])]
Base(type) == CASE type = "MultiPoint" -> "Point" [] type = "MultiLineString" -> "LineString"
                [] type = "MultiPolygon" -> "Polygon" [] OTHER -> type

\* idx: number of the line among those that are not blank, from 0
LinesOf(fl, idx) == FlattenSeq([g \in 1..Len(fl.geos) |->
    IF Base(fl.geos[g].type) # "LineString" THEN << >>
    ELSE [k \in 1..Len(fl.geos[g].parts) |->
            [idx |-> idx, pos |-> k - 1, prop |-> fl.props[g], coords |-> Path3(fl.geos[g].parts[k][1])]]])
ConsOf(fl, idx) == FlattenSeq([g \in 1..Len(fl.geos) |->
    [k \in 1..Len(fl.geos[g].parts) |->
        [type |-> Base(fl.geos[g].type), idx |-> idx, pos |-> k - 1,
         rings |-> [q \in 1..Len(fl.geos[g].parts[k]) |-> Path3(fl.geos[g].parts[k][q])]]]])

---------------------------------------------------------------------------
(* the tool: one feature per linear line of the input, in order.             *)
Linear(il) == il.type \in {"LineString", "MultiLineString"}
Picked(L, R) == IF Len(R) = 0 THEN << >> ELSE
    [k \in 1..(Len(R)+1) |-> IF k = 1 THEN L[R[1][1] + 1] ELSE L[R[k-1][2] + 1]]
RECURSIVE SubsequenceOf(_, _)
SubsequenceOf(s, t) == IF s = << >> THEN TRUE ELSE IF t = << >> THEN FALSE
    ELSE IF s[1] = t[1] THEN SubsequenceOf(Tail(s), Tail(t)) ELSE SubsequenceOf(s, Tail(t))
\* {} for no properties
PropOut(p) == IF p = 0 THEN 1 ELSE p
FeatureShape(K, il, f) ==
    /\ f.kind = "Feature" /\ f.type = il.type /\ f.props = PropOut(il.props)
    /\ Len(f.parts) = Len(il.lines)
FeatureCoords(K, il, f) == \A k \in 1..Len(f.parts) : k <= Len(il.lines) => LET L == K.lines[il.lines[k]] p == f.parts[k] IN
    /\ Len(p) >= 2 /\ SubsequenceOf(p, L) /\ p[1] = L[1] /\ p[Len(p)] = L[Len(L)]
FeatureResult(K, il, f) == \A k \in 1..Len(f.parts) : k <= Len(il.lines) =>
    f.parts[k] = Picked(K.lines[il.lines[k]], K.lib[il.lines[k]])
=============================================================================
