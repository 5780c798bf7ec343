----------------------------- MODULE DequeTrace -----------------------------
(* Recorded concurrent histories of the real queue against Deque (C21): TLC  *)
(* searches for an order of the calls, consistent with the recorded moments  *)
(* of invocation and return, in which every call has its recorded result.    *)
(* A history is accepted when the search reaches its end.                    *)
EXTENDS Deque, TLC, Json, IOUtils, SequencesExt, FiniteSets
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES tid, taken \* calls that have taken effect
vars == <<content, tid, taken>>
Rec == Traces[tid]
N == IF Rec.kind = "que" THEN Len(Rec.ops) ELSE 0
Init == tid \in 1..Len(Traces) /\ content = << >> /\ taken = {}

\* the calls that returned before any other pending call was invoked come first
Pending == (1..N) \ taken
Minimal(k) == \A m \in Pending : m # k => ~(Rec.ops[m].ret < Rec.ops[k].inv)
Lin(k) == Rec.kind = "que" /\ Minimal(k) /\ Effect(Rec.ops[k]) /\ taken' = taken \cup {k} /\ UNCHANGED tid
\* a long run: conservation of elements
Conserved == /\ Rec.kind = "questress" /\ taken = {} /\ taken' = {0} /\ UNCHANGED <<content, tid>>
             /\ LET I == ToSet(Rec.in) O == ToSet(Rec.out) L == ToSet(Rec.left) IN
                /\ Cardinality(I) = Len(Rec.in) /\ Cardinality(O) = Len(Rec.out) /\ Cardinality(L) = Len(Rec.left)
                /\ O \cap L = {} /\ O \cup L = I /\ Rec.size = Len(Rec.left)
             /\ Rec.outcome = "returned"
             /\ PrintT("ACCEPT C21 " \o ToString(tid))
Accept == /\ Rec.kind = "que" /\ Pending = {} /\ -1 \notin taken /\ taken' = taken \cup {-1} /\ UNCHANGED <<content, tid>>
          /\ Rec.outcome = "returned"
          /\ PrintT("ACCEPT C21 " \o ToString(tid))
Next == (\E k \in Pending : k > 0 /\ Lin(k)) \/ Accept \/ Conserved
Spec == Init /\ [][Next]_vars
=============================================================================
