------------------------------ MODULE RunsTrace ------------------------------
(* Recorded runs of the simplifier on the same inputs, against Memo:         *)
(* C14 (processors, schedules), C16 (company and order), C12 (what is not at *)
(* stake). What a result may depend on is the key, built here from the       *)
(* inputs of the run.                                                        *)
EXTENDS Memo, Topo, Json, IOUtils, Bags

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
Wanted == ToSet(ndJsonDeserialize(IOEnv.VP_PROPS)[1].props)
VARIABLES tid, at
vars == <<memo, tid, at>>
Rec == Traces[tid]
Clause(p, name, ok) == IF p \notin Wanted \/ ok THEN TRUE
    ELSE PrintT("REJECT " \o p \o " " \o ToString(tid) \o " " \o name \o "@" \o ToString(at))

Init == tid \in 1..Len(Traces) /\ at = 1 /\ memo = << >>

BagOfSeq(s) == [x \in ToSet(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
Given(run) == [i \in 1..Len(run.lines) |-> Rec.lines[run.lines[i]]]

\* C14, C16: a line, and as part of a class the other lines too, in any order
Key(run, i) == LET g == Given(run) IN <<g[i], IF run.fc THEN BagOfSeq(g) ELSE << >>>>
Keys(run) == [i \in 1..Len(run.lines) |-> Key(run, i)]

\* C12: what may matter to a line: the constraints within the minimum distance of its hull, the
\* lines of the class whose hulls touch its hull, directly or through others, and the options in use
FarFrom(L, con, m2) == ~HullTouchesCon(L, con)
    /\ \A e \in HullEdges(L) : ~SegConLe(e[1], e[2], con, m2)
    /\ HullEdges(L) = {} => ~SegConLe(L[1], L[1], con, m2)
OptInUse(o) == [o EXCEPT !.min = IF o.dist THEN o.min ELSE 0, !.disp = IF o.avoid THEN o.disp ELSE 0]
RECURSIVE Touching(_, _)
Touching(g, S) == LET N == S \cup {j \in 1..Len(g) : \E i \in S : HullsTouch(g[i], g[j])}
                  IN IF N = S THEN S ELSE Touching(g, N)
Relevant(run, L) == IF ~(run.opt.geom \/ run.opt.dist \/ run.opt.dir) THEN {}
    ELSE LET X == ToSet(run.extra) m2 == run.opt.min * run.opt.min
             far == {x \in X : FarFrom(L, x, m2)}
         IN ToSet(run.cons) \ far
StakeKey(run, i) ==
    LET g == Given(run) T == IF run.fc THEN Touching(g, {i}) ELSE {i} IN
    <<OptInUse(run.opt), {<<j, g[j]>> : j \in T}, {Relevant(run, g[j]) : j \in T}>>
\* the keys matter only where the results differ
MetaOK(base, run) == \A i \in 1..Len(base.lines) : i <= Len(run.final) =>
    run.final[i] = base.final[i] \/ StakeKey(run, i) # StakeKey(base, i)

Step ==
    /\ at <= Len(Rec.runs)
    /\ at' = at + 1 /\ UNCHANGED tid
    /\ LET run == Rec.runs[at] rs == run.final IN
       IF Rec.kind = "meta"
       THEN Clause("C12", run.what, MetaOK(Rec.runs[1], run)) /\ UNCHANGED memo
       ELSE LET ks == Keys(run) IN
            /\ \A p \in {"C14", "C16"} : Clause(p, run.what,
                  SelfAgrees(ks, rs) /\ \A i \in 1..Len(ks) : Agrees(ks[i], rs[i]))
            /\ IF Len(ks) = Len(rs) THEN Learn(ks, rs) ELSE UNCHANGED memo
End == /\ at = Len(Rec.runs) + 1 /\ at' = at + 1 /\ UNCHANGED <<tid, memo>>
       /\ Clause("C14", Rec.outcome, Rec.outcome = "returned")
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("distinct") = FoldLeft(LAMBDA n, t : n + Len(t.runs) + 2, 0, Traces)
=============================================================================
