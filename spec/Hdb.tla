-------------------------------- MODULE Hdb --------------------------------
(* The hull database, as its users see it: a set of items, each with an      *)
(* identity and a box, changed by load, remove and clear.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions

VARIABLE held \* id -> box <<minx, miny, maxx, maxy>>

BoxOf(i) == <<i[2], i[3], i[4], i[5]>>
Meet(a, b) == a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]
Gap(lo1, hi1, lo2, hi2) == IF lo1 > hi2 THEN lo1 - hi2 ELSE IF lo2 > hi1 THEN lo2 - hi1 ELSE 0
BoxD2(a, b) == LET dx == Gap(a[1], a[3], b[1], b[3]) dy == Gap(a[2], a[4], b[2], b[4]) IN dx*dx + dy*dy

Ids == DOMAIN held
IsEmpty == Ids = {}
NoItems == held = [i \in {} |-> << >>]

\* items: sequence of <<id, minx, miny, maxx, maxy>> with ids not held
Load(items) == LET at == [k \in {items[n][1] : n \in 1..Len(items)} |-> 0]
                   pos == [n \in 1..Len(items) |-> items[n][1]]
                   new == AntiFunction(pos)
               IN held' = [k \in Ids \cup DOMAIN at |-> IF k \in Ids THEN held[k] ELSE BoxOf(items[new[k]])]
RemoveId(id) == held' = [k \in Ids \ {id} |-> held[k]]
ClearAll     == held' = [i \in {} |-> << >>]

\* observers: what a sequence of ids returned by the database must be
Lists(res, S) == Len(res) = Cardinality(S) /\ ToSet(res) = S
AllOK(res)         == Lists(res, Ids)
SearchOK(q, res)   == Lists(res, {i \in Ids : Meet(held[i], q)})
CollidesOK(q, ok)  == ok = (\E i \in Ids : Meet(held[i], q))
KnnOK(q, k, res) ==
    LET d == [id \in Ids |-> BoxD2(held[id], q)] out == ToSet(res) IN
    /\ Len(res) = (IF k = 0 \/ k > Cardinality(Ids) THEN Cardinality(Ids) ELSE k)
    /\ out \subseteq Ids
    /\ Cardinality(out) = Len(res)
    /\ \A n \in 1..(Len(res)-1) : d[res[n]] <= d[res[n+1]]
    /\ Len(res) > 0 => \A id \in Ids \ out : d[id] >= d[res[Len(res)]]
=============================================================================
