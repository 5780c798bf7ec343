----------------------------- MODULE AlgoTrace -----------------------------
(* Recorded simplifications against Algo: is there a behaviour of the machine *)
(* that decomposes each line as recorded, leaves it simplified on its own as  *)
(* recorded, and ends with the recorded result? Splits among    *)
(* the class are final, so only those the result shows need be followed.      *)
EXTENDS Algo, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
TraceInput(k) == Traces[k]
VARIABLE round \* rounds of the class so far
T == Traces[id]

\* the recorded behaviour follows the recorded steps
Follows ==
    /\ pc' = "cut" => part[ln] = T.base[ln]
    /\ pc' # pc /\ pc = "fold" => part[ln] = T.stage[ln]
    /\ pc' = "csplit" => \A x \in chosen' : x[2] \notin ToSet(T.final[x[1]])
    /\ Class /\ part' # part => \A l \in 1..Len(in.lines) : Cuts(part'[l]) \subseteq Cuts(T.final[l])

\* each round of the class is announced with the number of fragments it checks
Counted ==
    IF pc = "cround"
    THEN round' = round + 1 /\ (T.rounds = <<-1>> \/ (round < Len(T.rounds) /\ T.rounds[round + 1] = Cardinality(fresh)))
    ELSE UNCHANGED round
TInit == \E t \in 1..Len(Traces) : Start(t) /\ round = 0
TNext == Next /\ Follows /\ Counted
Narrow == luck <= 5 \* beyond that many choices nothing is claimed
Report == /\ ~Narrow => PrintT("WIDE " \o ToString(id))
          /\ pc = "done" /\ part = T.final /\ (T.rounds = <<-1>> \/ round = Len(T.rounds)) => PrintT("ACCEPT C31 " \o ToString(id))
TSpec == TInit /\ [][TNext]_<<vars, round>>
=============================================================================
