------------------------------ MODULE TransAlg ------------------------------
(* Every path of a few bounces through every stack of a few sheets: each     *)
(* light met by scattering is accounted once, either by the direct sampling  *)
(* of the vertex before it or, past a mirror, by its emission.               *)
EXTENDS Transport
CONSTANTS NS
VARIABLES sheets, path, terms, over
Sheet == {[up |-> u, light |-> l, mirror |-> m, f |-> 1, p |-> 1] : u, m \in BOOLEAN, l \in {0, 1}}
Init == /\ sheets \in [1..NS -> Sheet] /\ terms = <<>> /\ over = FALSE
        /\ \E d \in {-1, 1} : LET z == IF d = 1 THEN 1 ELSE 2 * NS + 1 IN
           path = <<[v |-> 0, s |-> NextSheet(sheets, z, d), dir |-> d, num |-> 1, den |-> 1, spec |-> FALSE]>>
Script == {[u |-> u, go |-> g, w |-> 1, bgo |-> g, bf |-> 1, bp |-> 1] : u \in {3, 61}, g \in {-1, 1}}
Step == /\ ~over /\ UNCHANGED sheets
        /\ \E q \in Script : LET p == path[Len(path)] IN
           /\ terms' = Append(terms, Terms(sheets, p, q))
           /\ IF Over(sheets, p, q) THEN over' = TRUE /\ UNCHANGED path
              ELSE over' = FALSE /\ path' = Append(path, Follow(sheets, p, q))
Next == Step
Kinds(i) == {terms[i][k].t : k \in 1..Len(terms[i])}
Bright(i) == sheets[path[i].s].light > 0 /\ Faces(sheets[path[i].s], -path[i].dir)
(* when the light met next is the sampled one, the vertex before counts it   *)
(* through its own sample exactly when it does not count itself              *)
Once == \A i \in 2..Len(path) : (i <= Len(terms) /\ Bright(i)) =>
          ("e" \in Kinds(i)) = sheets[path[i-1].s].mirror
NoDrop == Len(terms) > 0 /\ Bright(1) => "e" \in Kinds(1)
Bounded == Len(path) <= LastBounce + 1
NoDark == \A i \in 1..Len(terms) : "e" \in Kinds(i) => Bright(i)
(* only one light: a diffuse vertex whose sample goes to it counts it *)
Sampled == \A i \in 1..(Len(terms) - 1) : (i < Len(path) /\ Bright(i + 1) /\ Cardinality(Lights(sheets)) = 1
              /\ ~sheets[path[i].s].mirror) => {"l", "b"} \subseteq Kinds(i)
=============================================================================
