------------------------------ MODULE PathAlg -------------------------------
(* The laws of path resolution, for all short token sequences.               *)
EXTENDS Path, TLC
CONSTANTS Names, MaxLen
VARIABLES b, p, q
Tok == {<<n, "">> : n \in Names}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Plain == {t \in Tok : t[1] \notin {"", ".", ".."}}
Init == b \in Seqs(Plain, 2) /\ p \in Seqs(Tok, MaxLen) /\ q \in Seqs(Tok, 2)
Next == UNCHANGED <<b, p, q>>
R == Walk(b, p)
NoDots == \A i \in 1..Len(R) : R[i][1] \notin {"", ".", ".."}
Idempotent == Walk(<<>>, R) = R
Concat == Walk(R, q) = Walk(b, p \o q)
ParentIsDotDot == Up(R) = Walk(b, Append(p, <<"..", "">>))
ChildOfParent == \A t \in Plain : Up(Walk(R, <<t>>)) = R
Shorter == Len(R) <= Len(b) + Len(p)
=============================================================================
