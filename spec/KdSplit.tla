------------------------------ MODULE KdSplit ------------------------------
(* One split of the kd-tree build along an axis, with every order the sort   *)
(* may leave equal candidates in: an asset that overlaps a side of the plane *)
(* must be kept on a side the ray will visit.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, M, TieRule     \* assets, coordinates 0..M, "any" | "left-first"
VARIABLES lo, hi, order, left, right, split
vars == <<lo, hi, order, left, right, split>>
A == 1..N
Cand == A \X {"L", "R"}
Pos(c) == IF c[2] = "L" THEN lo[c[1]] ELSE hi[c[1]]
(* strict order the comparison function defines *)
Before(c, d) == \/ Pos(c) < Pos(d)
                \/ TieRule = "left-first" /\ Pos(c) = Pos(d) /\ c[2] = "L" /\ d[2] = "R"
Sorted(s) == \A i, j \in 1..(2*N) : i < j => ~Before(s[j], s[i])
Perms == {s \in [1..(2*N) -> Cand] : \A i, j \in 1..(2*N) : i # j => s[i] # s[j]}
Init == /\ lo \in [A -> 0..M] /\ hi \in [A -> 0..M] /\ \A a \in A : lo[a] <= hi[a]
        /\ order = <<>> /\ left = {} /\ right = {} /\ split = -1
Sort == /\ order = <<>>
        /\ \E s \in Perms : Sorted(s) /\ order' = s
        /\ UNCHANGED <<lo, hi, left, right, split>>
Split == /\ order # <<>> /\ split = -1
         /\ \E k \in 1..(2*N) :
            /\ split' = Pos(order[k])
            /\ left' = {order[i][1] : i \in {j \in 1..(k-1) : order[j][2] = "L"}}
            /\ right' = {order[i][1] : i \in {j \in (k+1)..(2*N) : order[j][2] = "R"}}
         /\ UNCHANGED <<lo, hi, order>>
Next == Sort \/ Split
Kept == split >= 0 => left \cup right = A
(* what lies beyond the plane, on either side, is in the child of that side *)
Covered == split >= 0 => \A a \in A : /\ lo[a] < split => a \in left
                                      /\ hi[a] > split => a \in right
=============================================================================
