-------------------------------- MODULE Chain --------------------------------
(* Deciding whether a stretch can be pulled straight without passing over a   *)
(* constraint (homotopy): vertices are taken out one after the other, a vertex *)
(* only if no constraint touches the triangle it makes with its neighbours.    *)
(* The stretch can be pulled straight if only its ends are left.               *)
EXTENDS Geo, TLC
CONSTANTS G, N, Obst
VARIABLES path, obs, from \* what is left, the constraints (points), the stretch
vars == <<path, obs, from>>

Pts == (0..G) \X (0..G)
Corner == {p \in Pts : p[1] <= p[2] /\ 2 * p[2] <= G}
InTriangle(p, a, b, c) == InH(p, Hull(<<a, b, c>>))
OnPath(p, P) == \E i \in 1..(Len(P)-1) : OnSeg(p, P[i], P[i+1])

Init == /\ from \in {s \in [1..N -> Pts] : s[1] \in Corner /\ \A k \in 1..(N-1) : s[k] # s[k+1]}
        /\ path = from
        /\ obs \in {o \in SUBSET Pts : Cardinality(o) \in Obst /\
                     \A p \in o : ~OnPath(p, from) /\ ~OnSeg(p, from[1], from[N])}
Collapse(i) ==
    /\ \A p \in obs : ~InTriangle(p, path[i-1], path[i], path[i+1])
    /\ path' = SubSeq(path, 1, i-1) \o SubSeq(path, i+1, Len(path))
    /\ UNCHANGED <<obs, from>>
Next == \E i \in 2..(Len(path)-1) : Collapse(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Word(P) == CrossWord(P, SortedObs(obs))
Stuck == ~ENABLED Next
Class == Word(path) = Word(from)             \* no step leaves the homotopy class
Clear == \A p \in obs : ~OnPath(p, path)
Sound == Len(path) = 2 => Word(from) = Word(<<from[1], from[N]>>)
\* not so: from <<0,0>>, <<0,1>>, <<0,2>>, <<2,0>>, <<2,2>> around <<1,0>>, <<1,2>> the order decides;
\* to refuse costs a vertex, never the side of a constraint
Free(P, i) == \A p \in obs : ~InTriangle(p, P[i-1], P[i], P[i+1])
RECURSIVE Straightens(_)
Straightens(P) ==
    \/ Len(P) = 2
    \/ \E i \in 2..(Len(P)-1) : Free(P, i) /\ Straightens(SubSeq(P, 1, i-1) \o SubSeq(P, i+1, Len(P)))
Confluent == Straightens(path) = Straightens(from)
\* no constraint touches the hull: always pulled straight
Easy == (Stuck /\ \A p \in obs : ~InH(p, Hull(from))) => Len(path) = 2
\* not so: <<0,0>>, <<0,1>>, <<2,0>>, <<2,1>>, <<0,0>> around <<1,0>> and <<1,1>> is refused, homotopic as it is
Complete == Stuck /\ Len(path) > 2 => Word(from) # Word(<<from[1], from[N]>>)
Ends == <>[](Stuck)
=============================================================================
