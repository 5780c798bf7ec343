------------------------------- MODULE Total -------------------------------
(* From a call with a valid input the only step is its return (C24; for the  *)
(* other properties: the call whose result they speak of gives one). Records *)
(* carry the input and the observed outcome of the real call.                *)
EXTENDS Topo, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
Wanted == ToSet(ndJsonDeserialize(IOEnv.VP_PROPS)[1].props)
VARIABLES tid, step
vars == <<tid, step>>
T == Traces[tid]

ValidLine(K, L) ==
    /\ Len(L) >= 2
    /\ K.mode = "sed" => \A i \in 1..(Len(L)-1) : L[i][3] < L[i+1][3]
ValidCon(c) ==
    /\ Len(c.parts) >= 1
    /\ CASE c.type = "point" -> Len(c.parts[1]) = 1
         [] c.type = "line" -> Len(c.parts[1]) >= 2
         [] c.type = "polygon" -> \A h \in 1..Len(c.parts) : Len(c.parts[h]) >= 4 /\ Same(c.parts[h][1], Last(c.parts[h]))
Valid(K) ==
    /\ \A l \in 1..Len(K.lines) : ValidLine(K, K.lines[l])
    /\ \A c \in 1..Len(K.cons) : ValidCon(K.cons[c])
    /\ K.opt.T >= 0 /\ K.opt.min >= 0 /\ K.opt.disp >= 0

Init == tid \in 1..Len(Traces) /\ step = "call"
Return == step = "call" /\ T.outcome = "returned" /\ step' = "returned" /\ UNCHANGED tid
Stuck == \* observed, but not a step of a valid call
    /\ step = "call" /\ T.outcome # "returned" /\ step' = "stuck" /\ UNCHANGED tid
    /\ ({"lines", "cons", "opt", "mode"} \subseteq DOMAIN T => Valid(T))
       => \A p \in Wanted : PrintT("REJECT " \o p \o " " \o ToString(tid) \o " " \o T.outcome)
Next == Return \/ Stuck
Spec == Init /\ [][Next]_vars
=============================================================================
