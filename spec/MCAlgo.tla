------------------------------- MODULE MCAlgo -------------------------------
(* Every behaviour of the procedure on every input of a small world: lines on *)
(* a grid, each repeated vertex, touch, overlap and tie included. What the    *)
(* properties promise of results holds in every final state; every behaviour  *)
(* is finite.                                                                 *)
EXTENDS Algo, TLC

CONSTANTS
    G,       \* coordinates 0..G
    Sizes,   \* vertices per line
    Options, \* sets of options: records
    Context, \* sequences of constraint geometries
    AsClass

Pts == (0..G) \X (0..G)
\* the first vertex up to symmetry of the grid
Corner == {p \in Pts : p[1] <= p[2] /\ 2 * p[2] <= G}
LinesOf(n, first) ==
    {[k \in 1..n |-> <<s[k][1], s[k][2], k - 1>>] :
        s \in {s \in [1..n -> Pts] : s[1] \in first /\ \A k \in 1..(n-1) : s[k] # s[k+1]}}

Itself(k) == k
S4 == <<4>>
S5 == <<5>>
S33 == <<3, 3>>
S43 == <<4, 3>>
S42 == <<4, 2>>
MCInit ==
    \E o \in Options : \E c \in Context :
    \E a \in LinesOf(Sizes[1], IF c = <<>> THEN Corner ELSE Pts) :
    \E b \in (IF Len(Sizes) > 1 THEN LinesOf(Sizes[2], Pts) ELSE {<<>>}) :
        Start([lines |-> IF b = <<>> THEN <<a>> ELSE <<a, b>>, cons |-> c, opt |-> o, mode |-> "dp",
               fc |-> AsClass, big |-> FALSE])
MCNext == Next \/ (pc = "done" /\ UNCHANGED vars)
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(Next)

Opt(T, disp, plan, nplan, avoid, g, d, h, m) ==
    [T |-> T, min |-> m, disp |-> disp, plan |-> plan, nplan |-> nplan, avoid |-> avoid, geom |-> g, dist |-> d, dir |-> h]
AvoidOnly == {Opt(t, 400, FALSE, FALSE, TRUE, FALSE, FALSE, FALSE, 0) : t \in {1, 4}}
AvoidOne == {Opt(1, 400, FALSE, FALSE, TRUE, FALSE, FALSE, FALSE, 0)}
AvoidFour == {Opt(4, 400, FALSE, FALSE, TRUE, FALSE, FALSE, FALSE, 0)}
AvoidNear == {Opt(4, 0, FALSE, FALSE, TRUE, FALSE, FALSE, FALSE, 0)}
Vertices == {Opt(4, 400, TRUE, b, FALSE, FALSE, FALSE, FALSE, 0) : b \in BOOLEAN}
            \cup {Opt(4, 400, TRUE, TRUE, TRUE, FALSE, FALSE, FALSE, 0)}
Relations == {Opt(4, 400, FALSE, FALSE, FALSE, TRUE, FALSE, FALSE, 1),
              Opt(4, 400, FALSE, FALSE, FALSE, FALSE, TRUE, FALSE, 1),
              Opt(4, 400, FALSE, FALSE, FALSE, FALSE, FALSE, TRUE, 1)}
NoContext == {<<>>}
OnePoint == {<<[type |-> "point", parts |-> <<<<p>>>>]>> : p \in Pts}

Tiled == \A l \in 1..Len(in.lines) : Tiles(part[l], NV(in.lines[l]))
Final == [l \in 1..Len(in.lines) |-> CutSeq(part[l])]
Done == pc = "done"
I01 == Done => P01(in, part, Final)
I02 == Done => P02(in, part)
I04 == Done => P04(in, part)
I05 == Done => P05(in, part)
I06 == Done => P06(in, part)
I07 == Done => P07(in, part)
I08 == Done => P08(in, part)
I09 == Done => P09(in, part)
I10 == Done => P10(in, part)
I11 == Done => P11(in, part)
I30 == Done => P30(in, part)
\* splitting only ever refines, merging only joins
Finer == \A l \in 1..Len(in.lines) : Cuts(part[l]) \subseteq Cuts(part'[l])
Coarser == \A l \in 1..Len(in.lines) : Cuts(part'[l]) \subseteq Cuts(part[l])
Steps == [][pc # "fold" => Finer]_vars
Merges == [][pc = "fold" => Coarser]_vars
Ends == <>(pc = "done")
=============================================================================
