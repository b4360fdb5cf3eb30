------------------------------- MODULE Lobes --------------------------------
(* A material is a list of lobes: [side ("R" or "T"), spec, v (its value),   *)
(* p (its density), c (its colour), go (the side its samples leave on, "0"   *)
(* for total reflection: no direction), blind (answers on either side)].     *)
(* Values are 64ths, densities 16ths.  A specular lobe answers v with        *)
(* density 1 when sampled, and nothing for a given pair of directions unless *)
(* blind.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets
Idx(m) == 1..Len(m)
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j
                 IN f[i] + SumOver(S \ {i}, f)
Asked(m, side, ms) == {i \in Idx(m) : m[i].side = side /\ (m[i].spec => ms /\ m[i].blind)}
(* a pair of directions on one side or on opposite ones *)
Value(m, side, ms) == SumOver(Asked(m, side, ms),
                          [i \in Idx(m) |-> m[i].v * m[i].c])
Density(m, side, ms) == SumOver(Asked(m, side, ms),
                            [i \in Idx(m) |-> m[i].p])
Eligible(m, ms) == {i \in Idx(m) : ms \/ ~m[i].spec}
Pdf(m, side, ms) == [num |-> Density(m, side, ms),
                     den |-> IF Eligible(m, ms) = {} THEN 1 ELSE Cardinality(Eligible(m, ms))]
Nth(S, n) == CHOOSE i \in S : Cardinality({j \in S : j < i}) = n
(* r in 128ths of the unit interval *)
Chosen(m, ms, r) == LET n == Cardinality(Eligible(m, ms))
                        k == (r * n) \div 128
                    IN Nth(Eligible(m, ms), IF k = n THEN n - 1 ELSE k)
Nothing == [v |-> 0, num |-> 0, den |-> 1, spec |-> FALSE, lobe |-> 0]
Sample(m, ms, r) ==
  IF Eligible(m, ms) = {} THEN Nothing
  ELSE LET i == Chosen(m, ms, r)
           l == m[i]
           n == Cardinality(Eligible(m, ms))
       IN IF l.go = "0" THEN Nothing
          ELSE IF l.spec THEN [v |-> l.v * l.c, num |-> 16, den |-> n, spec |-> TRUE, lobe |-> i]
          ELSE [v |-> Value(m, l.go, FALSE), num |-> Density(m, l.go, FALSE), den |-> n, spec |-> FALSE, lobe |-> i]
=============================================================================
