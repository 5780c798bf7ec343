-------------------------------- MODULE Memo --------------------------------
(* A simplifier is a function of its inputs. `memo` remembers the results    *)
(* given so far; a run may only repeat what is remembered.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE memo \* inputs -> result

Known(k)       == k \in DOMAIN memo
Agrees(k, r)   == Known(k) => memo[k] = r
Learn(ks, rs)  == memo' = [k \in DOMAIN memo \cup {ks[i] : i \in 1..Len(ks)} |->
                    IF k \in DOMAIN memo THEN memo[k] ELSE rs[CHOOSE i \in 1..Len(ks) : ks[i] = k]]
\* one run gives equal inputs equal results
SelfAgrees(ks, rs) == /\ Len(ks) = Len(rs)
                      /\ \A i \in 1..Len(ks) : \A j \in 1..(i-1) : ks[i] = ks[j] => rs[i] = rs[j]
Run(ks, rs) == SelfAgrees(ks, rs) /\ (\A i \in 1..Len(ks) : Agrees(ks[i], rs[i])) /\ Learn(ks, rs)
=============================================================================
