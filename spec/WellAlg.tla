------------------------------ MODULE WellAlg -------------------------------
(* The transition of the generator is linear and loses nothing: the images   *)
(* of all states with one bit set are not zero, and differ.                  *)
EXTENDS Well, TLC, FiniteSets
VARIABLES k
One(n) == [s |-> [j \in 0..31 |-> IF j = n \div 32 THEN [b \in Bits |-> IF b = 1 + (n % 32) THEN 1 ELSE 0] ELSE Zero], i |-> 0]
Sum(a, b) == [s |-> [j \in 0..31 |-> Xor(a.s[j], b.s[j])], i |-> a.i]
Init == k = 0
Next == k < 1023 /\ k' = k + 1
Null == [s |-> [j \in 0..31 |-> Zero], i |-> 31]
Alive == Pull(One(k)) # Null
Linear == Pull(Sum(One(k), One(((7 * k) + 3) % 1024))) = Sum(Pull(One(k)), Pull(One(((7 * k) + 3) % 1024))) \/ k = ((7 * k) + 3) % 1024
=============================================================================
