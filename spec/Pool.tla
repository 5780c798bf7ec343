-------------------------------- MODULE Pool --------------------------------
(* The two worker pools. A pool has W workers; tasks are handed over one by   *)
(* one (the lines of SimplifyInstances) or given as chunks (the fragments of  *)
(* a round); what the workers find goes through a channel of Cap places to    *)
(* the caller, which returns when that channel is closed and drained.         *)
(* Lines are independent of each other and a round only reads the fragments,  *)
(* so a task's findings, Found(t), do not depend on the schedule.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, Cap, MaxTasks, MaxFound, Items
ASSUME W \in Nat \ {0} /\ Cap \in Nat

VARIABLES
    tasks,   \* what each task will find: a sequence of sequences
    handed,  \* tasks handed over so far (stream), or -1 where chunks are used
    chunk,   \* tasks each worker still has to do
    state,   \* of each worker: new, wait, work, send, gone
    todo,    \* findings each worker still has to send
    running, \* workers not gone: the wait group
    chan,    \* findings in the channel
    closed,  \* the channel is closed
    got,     \* findings the caller has
    returned
vars == <<tasks, handed, chunk, state, todo, running, chan, closed, got, returned>>

Workers == 1..W
N == Len(tasks)
Streamed == handed >= 0
Least(a, b) == IF a < b THEN a ELSE b

\* n tasks in chunks for c workers, as in chunkTasks
ChunkSize(n, c) == IF n \div c = 0 THEN 1 ELSE n \div c
Chunks(n, c) == LET z == ChunkSize(n, c) m == (n + z - 1) \div z IN
    [k \in 1..m |-> [j \in 1..(Least(k * z, n) - (k - 1) * z) |-> (k - 1) * z + j]]

Findings == UNION {[1..n -> Items] : n \in 0..MaxFound}
InitStream ==
    /\ tasks \in UNION {[1..n -> {<<x>> : x \in Items}] : n \in 0..MaxTasks}
    /\ handed = 0 /\ chunk = [w \in Workers |-> <<>>] /\ running = W
    /\ state = [w \in Workers |-> "new"]
InitChunks == \* every chunk has its own worker here: W is at least the number of chunks
    /\ tasks \in UNION {[1..n -> Findings] : n \in 0..MaxTasks}
    /\ handed = -1
    /\ LET cs == Chunks(N, 2) IN
        /\ Len(cs) <= W
        /\ chunk = [w \in Workers |-> IF w <= Len(cs) THEN cs[w] ELSE <<>>]
        /\ running = Len(cs)
        /\ state = [w \in Workers |-> IF w <= Len(cs) THEN "new" ELSE "gone"]
Init == /\ InitStream \/ InitChunks
        /\ todo = [w \in Workers |-> <<>>]
        /\ chan = <<>> /\ closed = FALSE /\ got = <<>> /\ returned = FALSE

Go(w) == \* the goroutine starts
    /\ state[w] = "new" /\ state' = [state EXCEPT ![w] = "wait"]
    /\ UNCHANGED <<tasks, handed, chunk, todo, running, chan, closed, got, returned>>
Hand(w) == \* an unbuffered channel: worker and feeder meet
    /\ Streamed /\ state[w] = "wait" /\ handed < N
    /\ handed' = handed + 1
    /\ state' = [state EXCEPT ![w] = "send"] /\ todo' = [todo EXCEPT ![w] = tasks[handed + 1]]
    /\ UNCHANGED <<tasks, chunk, running, chan, closed, got, returned>>
Take(w) ==
    /\ ~Streamed /\ state[w] = "wait" /\ chunk[w] # <<>>
    /\ chunk' = [chunk EXCEPT ![w] = Tail(@)]
    /\ state' = [state EXCEPT ![w] = "send"] /\ todo' = [todo EXCEPT ![w] = tasks[Head(chunk[w])]]
    /\ UNCHANGED <<tasks, handed, running, chan, closed, got, returned>>
Send(w) ==
    /\ state[w] = "send" /\ todo[w] # <<>> /\ Len(chan) < Cap
    /\ Assert(~closed, "send on a closed channel")
    /\ chan' = Append(chan, Head(todo[w])) /\ todo' = [todo EXCEPT ![w] = Tail(@)]
    /\ UNCHANGED <<tasks, handed, chunk, state, running, closed, got, returned>>
Finish(w) ==
    /\ state[w] = "send" /\ todo[w] = <<>>
    /\ state' = [state EXCEPT ![w] = "wait"]
    /\ UNCHANGED <<tasks, handed, chunk, todo, running, chan, closed, got, returned>>
Leave(w) == \* no tasks left: the stream is closed or the chunk at its end
    /\ state[w] = "wait" /\ (IF Streamed THEN handed = N ELSE chunk[w] = <<>>)
    /\ state' = [state EXCEPT ![w] = "gone"] /\ running' = running - 1
    /\ UNCHANGED <<tasks, handed, chunk, todo, chan, closed, got, returned>>
Close ==
    /\ running = 0 /\ ~closed /\ closed' = TRUE
    /\ UNCHANGED <<tasks, handed, chunk, state, todo, running, chan, got, returned>>
Receive ==
    /\ ~returned /\ chan # <<>>
    /\ got' = Append(got, Head(chan)) /\ chan' = Tail(chan)
    /\ UNCHANGED <<tasks, handed, chunk, state, todo, running, closed, returned>>
Return ==
    /\ ~returned /\ closed /\ chan = <<>> /\ returned' = TRUE
    /\ UNCHANGED <<tasks, handed, chunk, state, todo, running, chan, closed, got>>
Worker(w) == Go(w) \/ Hand(w) \/ Take(w) \/ Send(w) \/ Finish(w) \/ Leave(w)
Next == (\E w \in Workers : Worker(w)) \/ Close \/ Receive \/ Return
Rest == returned /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Rest]_vars /\ WF_vars(Close) /\ WF_vars(Receive) /\ WF_vars(Return)
        /\ \A w \in Workers : WF_vars(Worker(w))

---------------------------------------------------------------------------
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* the caller returns when every task is done, with exactly what the tasks found
AllFound == returned => LET all == Flat(tasks) IN
    Len(got) = Len(all) /\ \A x \in Items : Times(got, x) = Times(all, x)
Idle == returned => \A w \in Workers : state[w] = "gone"
\* every task is in one chunk, in order; there are fewer than twice as many chunks as workers
ChunksOK == \A n \in 0..40 : \A c \in 1..9 :
    LET cs == Chunks(n, c) IN
    /\ Flat(cs) = [k \in 1..n |-> k]
    /\ \A k \in 1..Len(cs) : cs[k] # <<>>
    /\ Len(cs) < 2 * c
Bounded == Len(chan) <= Cap
Returns == <>returned
ASSUME ChunksOK
=============================================================================
