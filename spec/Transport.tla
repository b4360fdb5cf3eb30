----------------------------- MODULE Transport ------------------------------
(* A path followed through a stack of parallel sheets.  Sheet i lies at      *)
(* depth i and is [up (its normal), light (0 or what it emits), mirror, f, p  *)
(* (value and density of its scattering for any pair of directions)].        *)
(* Vertex k has a script: [u (its random number, 64ths), go, w (the path     *)
(* leaves towards go and keeps 2^-w of its power; go = 0: nothing is         *)
(* scattered), bgo, bf, bp (the sample asked for direct light)].             *)
(* The radiance is a sum of terms, each weighed by num/den.                  *)
EXTENDS Integers, Sequences, FiniteSets
LastBounce == 5
LotteryFrom == 4
Lights(S) == {i \in 1..Len(S) : S[i].light > 0}
Nth(T, n) == CHOOSE i \in T : Cardinality({j \in T : j < i}) = n
(* a side is 1 (upwards) or -1; a sheet emits where its normal points *)
Faces(s, side) == (side = 1) = s.up
(* the sheet met leaving depth z (in halves) towards dir; 0: none *)
NextSheet(S, z, dir) ==
  LET T == {i \in 1..Len(S) : (2 * i - z) * dir > 0}
  IN IF T = {} THEN 0
     ELSE CHOOSE i \in T : \A j \in T : (2 * i - z) * dir <= (2 * j - z) * dir
Sign(n) == IF n > 0 THEN 1 ELSE -1
ChosenLight(S, u) == Nth(Lights(S), (u * Cardinality(Lights(S))) \div 64)
(* the state of a path: [v, s, dir, num, den, spec] at its v-th vertex       *)
Emission(S, p) ==
  IF S[p.s].light > 0 /\ Faces(S[p.s], -p.dir) /\ (p.v = 0 \/ p.spec)
  THEN <<[t |-> "e", v |-> p.v, le |-> S[p.s].light, num |-> p.num, den |-> p.den]>> ELSE <<>>
(* a light is seen from a sheet when nothing lies in between *)
Sees(S, s, l) == s # l /\ NextSheet(S, 2 * s, Sign(l - s)) = l /\ Faces(S[l], Sign(s - l))
Direct(S, p, q) ==
  IF Lights(S) = {} \/ S[p.s].mirror THEN <<>>
  ELSE LET l == ChosenLight(S, q.u)
           n == Cardinality(Lights(S))
       IN (IF Sees(S, p.s, l)
           THEN <<[t |-> "l", v |-> p.v, light |-> l, le |-> S[l].light, f |-> S[p.s].f, p |-> S[p.s].p,
                   num |-> n * p.num, den |-> p.den]>> ELSE <<>>)
          \o (IF q.bgo # 0 /\ NextSheet(S, 2 * p.s, q.bgo) = l /\ Faces(S[l], -q.bgo)
              THEN <<[t |-> "b", v |-> p.v, light |-> l, le |-> S[l].light, f |-> q.bf, p |-> q.bp,
                      gap |-> IF l > p.s THEN l - p.s ELSE p.s - l, num |-> n * p.num, den |-> p.den]>> ELSE <<>>)
Terms(S, p, q) == Emission(S, p) \o Direct(S, p, q)
(* the lottery: lost with probability a/b, survivors stand for the lost *)
Risk(p) == IF 2 * p.num >= p.den THEN <<1, 2>> ELSE <<p.num, p.den>>
Plays(p) == p.v >= LotteryFrom
Lost(p, q) == Plays(p) /\ q.u * Risk(p)[2] < 64 * Risk(p)[1]
Weight(p) == IF Plays(p) THEN <<Risk(p)[2], Risk(p)[2] - Risk(p)[1]>> ELSE <<1, 1>>
Over(S, p, q) == \/ Lost(p, q) \/ p.v = LastBounce \/ q.go = 0
                 \/ NextSheet(S, 2 * p.s, q.go) = 0
RECURSIVE Lower(_, _)
Lower(a, b) == IF a % 2 = 0 /\ b % 2 = 0 THEN Lower(a \div 2, b \div 2) ELSE <<a, b>>
Follow(S, p, q) ==
  LET w == Lower(p.num * Weight(p)[1], p.den * Weight(p)[2] * (2 ^ q.w))
  IN [v |-> p.v + 1, s |-> NextSheet(S, 2 * p.s, q.go), dir |-> q.go,
      num |-> w[1], den |-> w[2], spec |-> S[p.s].mirror]
=============================================================================
