---------------------------- MODULE InstanceTrace ----------------------------
(* Recorded lives of real instances against Instance: C15.                   *)
EXTENDS Instance, SequencesExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
Wanted == ToSet(ndJsonDeserialize(IOEnv.VP_PROPS)[1].props)
VARIABLES tid, at
vars == <<memo, now, tid, at>>
Rec == Traces[tid]
Op == Rec.ops[at]
Clause(p, name, ok) == IF p \notin Wanted \/ ok THEN TRUE
    ELSE PrintT("REJECT " \o p \o " " \o ToString(tid) \o " " \o name \o "@" \o ToString(at))
Init == /\ tid \in 1..Len(Traces) /\ at = 1 /\ memo = << >>
        /\ now = [line |-> Traces[tid].line, con |-> Traces[tid].con, opt |-> Traces[tid].opt,
                  mode |-> Traces[tid].mode, sq |-> Traces[tid].sq]
Is(op) == at <= Len(Rec.ops) /\ Op.op = op /\ at' = at + 1 /\ UNCHANGED tid
\* after any operation the coordinates are those of the current line
Untouched == Clause("C15", "coordinates", Op.coords = Rec.lines[now'.line])
DoOptions == Is("options") /\ SetOptions(Op.opt) /\ Untouched
DoScore   == Is("score") /\ SetScore(Op.mode, Op.sq) /\ Untouched
DoLine    == Is("line") /\ SetLine(Op.line) /\ Untouched
DoCons    == Is("constraints") /\ SetConstraints(Op.con) /\ Untouched
DoCall    == /\ \E kind \in {"simplify", "class", "decompose"} : Is(kind)
             /\ LET how == <<Op.op, Op.fixed>> ks == <<KeyOf(how), KeyOf(how)>> rs == <<Op.fresh, Op.res>> IN
                /\ Clause("C15", Op.op, SelfAgrees(ks, rs) /\ \A i \in 1..2 : Agrees(ks[i], rs[i]))
                /\ Learn(ks, rs)
             /\ Clause("C15", "retained", Op.op # "decompose" =>
                   ToSet(Op.set) = UNION {{Op.res[k][1], Op.res[k][2]} : k \in 1..Len(Op.res)})
             /\ UNCHANGED now /\ Untouched
Next == DoOptions \/ DoScore \/ DoLine \/ DoCons \/ DoCall
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("distinct") = FoldLeft(LAMBDA n, t : n + Len(t.ops) + 1, 0, Traces)
=============================================================================
