------------------------------- MODULE Shadow -------------------------------
(* Visibility queries answered with a cache of the last hit asset per slot:  *)
(* whatever the history, the answer is that of the scene.                    *)
EXTENDS Naturals, FiniteSets
CONSTANTS Rays, Assets, Dists, Slots
VARIABLES hits, cache, last
vars == <<hits, cache, last>>
None == 0                      \* Assets are positive
ASSUME Assets \subseteq Nat \ {0}
Init == /\ hits \in [Rays -> [Assets -> SUBSET Dists]]
        /\ cache = [s \in Slots |-> None] /\ last = [got |-> FALSE, want |-> FALSE]
Low(S) == CHOOSE d \in S : \A e \in S : d <= e
All(r) == UNION {hits[r][a] : a \in Assets}
Closer(r, a, d) == a # None /\ hits[r][a] # {} /\ Low(hits[r][a]) < d
Query(r, d, s) ==
  /\ IF Closer(r, cache[s], d)
     THEN /\ last' = [got |-> TRUE, want |-> \E e \in All(r) : e < d] /\ UNCHANGED cache
     ELSE IF All(r) = {} THEN last' = [got |-> FALSE, want |-> FALSE] /\ UNCHANGED cache
     ELSE \E a \in {a \in Assets : Low(All(r)) \in hits[r][a]} :
          /\ cache' = [cache EXCEPT ![s] = a]
          /\ last' = [got |-> Low(All(r)) < d, want |-> \E e \in All(r) : e < d]
  /\ UNCHANGED hits
Next == \E r \in Rays, d \in Dists, s \in Slots : Query(r, d, s)
CacheInvisible == last.got = last.want
=============================================================================
