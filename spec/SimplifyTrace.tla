--------------------------- MODULE SimplifyTrace ---------------------------
(* Recorded simplifications against Topo. A behaviour is: the call with its  *)
(* input, the decomposition, the lines simplified on their own, the result.  *)
(* Each step replaces the partitions; the clauses of the wanted properties   *)
(* are evaluated at the step they constrain.                                 *)
EXTENDS Topo, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
Wanted == ToSet(ndJsonDeserialize(IOEnv.VP_PROPS)[1].props)

VARIABLES tid, step, part
vars == <<tid, step, part>>

T == Traces[tid]
Whole(K) == [l \in 1..Len(K.lines) |-> <<<<0, NV(K.lines[l]) - 1>>>>]

\* TRUE, and a report when the clause does not hold
Clause(p, name, ok) == IF p \notin Wanted \/ ok THEN TRUE ELSE PrintT("REJECT " \o p \o " " \o ToString(tid) \o " " \o name)

Init == tid \in 1..Len(Traces) /\ step = "call" /\ part = Whole(Traces[tid])

Decompose ==
    /\ step = "call" /\ step' = "decomposed" /\ part' = T.base /\ UNCHANGED tid
    /\ Clause("C03", "constdp-decomposition", P03(T, T.base))
    /\ Clause("C03", "dp-decomposition", P03(T, T.plain))
    /\ Clause("C03", "dp-simple", \A l \in 1..Len(T.lines) : T.plains[l] = CutSeq(T.plain[l]))

Alone ==
    /\ step = "decomposed" /\ step' = "alone" /\ part' = T.stage /\ UNCHANGED tid
    /\ Clause("C12", "alone", P12(T, FALSE, part, part'))
    /\ Clause("C29", "pass", P29(T, part, part'))

Finish ==
    /\ step = "alone" /\ step' = "done" /\ part' = T.final /\ UNCHANGED tid
    /\ Clause("C01", "tiles", P01(T, part', T.simple))
    /\ Clause("C01", "fragments", \A l \in 1..Len(T.lines) :
            /\ Len(T.frags[l]) = Len(T.final[l])
            /\ \A k \in 1..Len(T.final[l]) : T.frags[l][k] = Stretch(T.lines[l], T.final[l][k]))
    /\ Clause("C01", "coordinates", T.coords = T.lines)
    /\ Clause("C02", "threshold", P02(T, part'))
    /\ Clause("C04", "self-vertices", P04(T, part'))
    /\ Clause("C05", "crossings", P05(T, part'))
    /\ Clause("C06", "junctions", P06(T, part'))
    /\ Clause("C07", "pairs", P07(T, part'))
    /\ Clause("C08", "pairs", P08(T, part'))
    /\ Clause("C30", "neighbours", P30(T, part'))
    /\ Clause("C09", "relation", P09(T, part'))
    /\ Clause("C10", "distance", P10(T, part'))
    /\ Clause("C11", "homotopy", P11(T, part'))
    /\ Clause("C12", "class", P12(T, T.fc, part, part'))
    /\ Clause("C12", "unconstrained-class", T.opt.avoid \/ part' = part)
    /\ Clause("C12", "independent", T.fc \/ part' = part)

Next == Decompose \/ Alone \/ Finish
Spec == Init /\ [][Next]_vars

\* every recorded behaviour was consumed to its end
Consumed == TLCGet("distinct") = 4 * Len(Traces)
=============================================================================
