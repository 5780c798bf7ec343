-------------------------------- MODULE Deque --------------------------------
(* The hull queue as a sequential double-ended queue: one operation at a     *)
(* time, each with the result it gives.                                      *)
EXTENDS Integers, Sequences
VARIABLE content

Append1(x)  == content' = Append(content, x)
AppendLeft(x) == content' = <<x>> \o content
Pop(r)      == content # << >> /\ r = content[Len(content)] /\ content' = SubSeq(content, 1, Len(content) - 1)
PopLeft(r)  == content # << >> /\ r = content[1] /\ content' = Tail(content)
First(r)    == content # << >> /\ r = content[1] /\ UNCHANGED content
Last(r)     == content # << >> /\ r = content[Len(content)] /\ UNCHANGED content
Size(r)     == r = Len(content) /\ UNCHANGED content
Clear       == content' = << >>

\* one call o = [op, arg, res] taking effect
Effect(o) ==
    \/ o.op = "append" /\ Append1(o.arg)
    \/ o.op = "appendleft" /\ AppendLeft(o.arg)
    \/ o.op = "pop" /\ Pop(o.res)
    \/ o.op = "popleft" /\ PopLeft(o.res)
    \/ o.op = "first" /\ First(o.res)
    \/ o.op = "last" /\ Last(o.res)
    \/ o.op = "size" /\ Size(o.res)
    \/ o.op = "clear" /\ Clear
=============================================================================
