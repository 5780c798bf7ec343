------------------------------ MODULE HdbTrace ------------------------------
(* Recorded histories of the real database against Hdb: C17, C18.            *)
EXTENDS Hdb, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
Wanted == ToSet(ndJsonDeserialize(IOEnv.VP_PROPS)[1].props)
VARIABLES tid, at
vars == <<held, tid, at>>
Ops == Traces[tid].ops
Op == Ops[at]
Clause(p, name, ok) == IF p \notin Wanted \/ ok THEN TRUE
    ELSE PrintT("REJECT " \o p \o " " \o ToString(tid) \o " " \o name \o "@" \o ToString(at))

Init == tid \in 1..Len(Traces) /\ at = 1 /\ NoItems
Is(name) == at <= Len(Ops) /\ Op.op = name /\ at' = at + 1 /\ UNCHANGED tid

DoLoad   == Is("load") /\ Load(Op.items)
DoRemove == Is("remove") /\ RemoveId(Op.id)
DoClear  == Is("clear") /\ ClearAll
DoAll    == Is("all") /\ Clause("C17", "all", AllOK(Op.res)) /\ UNCHANGED held
DoEmpty  == Is("empty") /\ Clause("C17", "empty", Op.ok = IsEmpty) /\ UNCHANGED held
DoSearch == Is("search") /\ Clause("C18", "search", SearchOK(Op.q, Op.res)) /\ UNCHANGED held
DoColl   == Is("collides") /\ Clause("C18", "collides", CollidesOK(Op.q, Op.ok)) /\ UNCHANGED held
DoKnn    == Is("knn") /\ Clause("C18", "knn", KnnOK(Op.q, Op.k, Op.res)) /\ UNCHANGED held
Next == DoLoad \/ DoRemove \/ DoClear \/ DoAll \/ DoEmpty \/ DoSearch \/ DoColl \/ DoKnn
Spec == Init /\ [][Next]_vars

Total == FoldLeft(LAMBDA n, t : n + Len(t.ops) + 1, 0, Traces)
Consumed == TLCGet("distinct") = Total
=============================================================================
