------------------------------ MODULE LibHist -------------------------------
(* Random histories of the libraries.                                        *)
EXTENDS LibBook, TLC, Json
CONSTANTS Len_
VARIABLES hist, todo
vars == <<lvars, hist, todo>>
Rnd(S) == RandomElement(S)
Init == LInit /\ hist = <<>> /\ todo = 0
Setup == todo = 0 /\ hist = <<>> /\ (\E n \in {Rnd(Len_)} : todo' = n) /\ UNCHANGED <<lvars, hist>>
Seen(l) == [k \in Kinds |-> l[k]]
Log(o, k, n) == hist' = Append(hist, [op |-> o, k |-> k, n |-> n, lib |-> lib', dead |-> dead', made |-> made'])
Step == /\ todo > 0 /\ todo' = todo - 1
        /\ \E o \in {Rnd({1, 2, 3, 4, 5, 6, 7, 8, 9, 10})}, k \in {Rnd(Kinds)}, n \in {Rnd(Names)} :
           CASE o <= 4 -> AddNew(k, n) /\ Log("add", k, n)
             [] o = 5 -> AddAnon /\ Log("anon", k, n)
             [] o \in {6, 7, 8} -> Erase(k, n) /\ Log("erase", k, n)
             [] o = 9 -> IF lib[k][n] \in {0, Dflt} THEN UNCHANGED lvars /\ Log("nop", k, n)
                         ELSE Again(k, n) /\ Log("again", k, n)
             [] OTHER -> IF Rnd(1..3) = 1 THEN \E g \in {Rnd({"m", "t"})} : Clear(g) /\ Log("clear", g, n)
                         ELSE UNCHANGED lvars /\ Log("nop", k, n)
Next == Setup \/ Step
Emit == (todo = 0 /\ hist # <<>>) => PrintT("@@" \o ToJson([h |-> hist, anon |-> anon]))
=============================================================================
