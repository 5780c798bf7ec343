------------------------------ MODULE Instance ------------------------------
(* One simplifier instance over its life: its inputs change, and what a      *)
(* simplification gives depends on the current inputs only.                  *)
EXTENDS Memo
VARIABLE now \* [line, con, opt, mode, sq]

SetOptions(o)     == now' = [now EXCEPT !.opt = o] /\ UNCHANGED memo
SetScore(m, s)    == now' = [now EXCEPT !.mode = m, !.sq = s] /\ UNCHANGED memo
SetLine(l)        == now' = [now EXCEPT !.line = l] /\ UNCHANGED memo
SetConstraints(c) == now' = [now EXCEPT !.con = c] /\ UNCHANGED memo
\* how: the kind of call and the vertices it was told to keep
KeyOf(how) == <<how, now.line, now.con, now.opt, now.mode, now.sq>>
\* a fresh instance with the current inputs gives f, this one r
Call(how, r, f) == Run(<<KeyOf(how), KeyOf(how)>>, <<f, r>>) /\ UNCHANGED now
=============================================================================
