------------------------------ MODULE FilesTrace ------------------------------
(* Recorded readings of files and runs of the tool against Files.            *)
EXTENDS Files, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
Wanted == ToSet(ndJsonDeserialize(IOEnv.VP_PROPS)[1].props)
VARIABLES tid, at, idx, lines, cons
\* at: position in the file; idx: lines that are not blank so far; lines, cons: what has been read
vars == <<tid, at, idx, lines, cons>>
Rec == Traces[tid]
Clause(p, name, ok) == IF p \notin Wanted \/ ok THEN TRUE ELSE PrintT("REJECT " \o p \o " " \o ToString(tid) \o " " \o name)
Init == tid \in 1..Len(Traces) /\ at = 1 /\ idx = 0 /\ lines = << >> /\ cons = << >>

ReadLine == /\ Rec.kind = "reader" /\ at <= Len(Rec.file)
            /\ LET fl == Rec.file[at] IN
               IF fl.wrap = "blank" THEN UNCHANGED <<idx, lines, cons>>
               ELSE /\ idx' = idx + 1
                    /\ lines' = lines \o LinesOf(fl, idx)
                    /\ cons' = cons \o ConsOf(fl, idx)
            /\ at' = at + 1 /\ UNCHANGED tid
ReadEnd == /\ Rec.kind = "reader" /\ at = Len(Rec.file) + 1
           /\ Clause("C28", "lines", Rec.lines = lines)
           /\ Clause("C28", "constraints", Rec.cons = cons)
           /\ at' = at + 1 /\ UNCHANGED <<tid, idx, lines, cons>>

Todo == SelectSeq(Rec.input, Linear)
Tool == /\ Rec.kind = "cli" /\ at = 1
        /\ \A q \in 1..Len(Rec.runs) : LET run == Rec.runs[q] IN
            /\ \A p \in {"C22", "C23"} : Clause(p, "status-" \o run.how, run.exit = 0 /\ run.wrote)
            /\ Clause("C22", "features", Len(run.feats) = Len(Todo))
            /\ Len(run.feats) = Len(Todo) => \A n \in 1..Len(Todo) :
                /\ Clause("C22", "shape", FeatureShape(Rec, Todo[n], run.feats[n]))
                /\ Clause("C22", "coordinates", FeatureCoords(Rec, Todo[n], run.feats[n]))
                /\ Clause("C23", "result-" \o run.how, FeatureResult(Rec, Todo[n], run.feats[n]))
            /\ Clause("C23", "same-" \o run.how, run.feats = Rec.runs[1].feats)
        /\ \A q \in 1..Len(Rec.bad) :
            Clause("C23", "accepted", Rec.bad[q].exit # 0 /\ ~Rec.bad[q].wrote)
        /\ at' = 2 /\ UNCHANGED <<tid, idx, lines, cons>>
Next == ReadLine \/ ReadEnd \/ Tool
Spec == Init /\ [][Next]_vars
Steps(t) == IF t.kind = "cli" THEN 2 ELSE Len(t.file) + 2
Consumed == TLCGet("distinct") = FoldLeft(LAMBDA n, t : n + Steps(t), 0, Traces)
=============================================================================
