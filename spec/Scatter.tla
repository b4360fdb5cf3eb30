--------------------------------- MODULE Scatter ---------------------------------
(* What a scattering lobe may depend on.  A direction is <<x, y, z, n>>, the    *)
(* unit vector (x, y, z) / n; the normal of the surface is the third axis.      *)
(* A state is a pair of directions and what was done to reach it from the       *)
(* first pair: turning or mirroring both about the normal, exchanging them,     *)
(* moving both to the other side of the surface together with the media.  The   *)
(* lobe of a surface does not change, so neither does what it scatters.         *)
EXTENDS Integers, Sequences
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Low(d) == LET g == Gcd(Gcd(Abs(d[1]), Abs(d[2])), Gcd(Abs(d[3]), d[4]))
          IN <<d[1] \div g, d[2] \div g, d[3] \div g, d[4] \div g>>
Unit(d) == d[1] * d[1] + d[2] * d[2] + d[3] * d[3] = d[4] * d[4] /\ d[4] > 0
Frac(p, q) == LET g == Gcd(Abs(p), q) IN <<p \div g, q \div g>>
Dot(a, b) == Frac(a[1] * b[1] + a[2] * b[2] + a[3] * b[3], a[4] * b[4])
Cos(d) == Frac(d[3], d[4])
(* turn by the angle of cosine a/c and sine b/c *)
Turn(d, t) == Low(<<t[1] * d[1] - t[2] * d[2], t[2] * d[1] + t[1] * d[2], t[3] * d[3], t[3] * d[4]>>)
Square == {<<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>}
Turns == Square \cup {<<3, 4, 5>>, <<4, -3, 5>>, <<-5, 12, 13>>, <<15, 8, 17>>, <<-7, -24, 25>>}
Sharp == {<<0, 1, 1>>, <<0, -1, 1>>}
Mirror(d) == <<-d[1], d[2], d[3], d[4]>>
Cross(d) == <<d[2], d[1], d[3], d[4]>>
Flip(d) == <<d[1], d[2], -d[3], d[4]>>
(* --- steps --- *)
Start(wo, wi) == [wo |-> wo, wi |-> wi, crossed |-> FALSE, under |-> FALSE, swapped |-> FALSE]
Both(s, F(_)) == [s EXCEPT !.wo = F(s.wo), !.wi = F(s.wi)]
StepTurn(s, t) == [Both(s, LAMBDA d : Turn(d, t)) EXCEPT !.crossed = (t \in Sharp) # @]
StepMirror(s) == Both(s, Mirror)
StepCross(s) == [Both(s, Cross) EXCEPT !.crossed = ~@]
StepFlip(s) == [Both(s, Flip) EXCEPT !.under = ~@]
StepSwap(s) == [s EXCEPT !.wo = s.wi, !.wi = s.wo, !.swapped = ~@]
(* the medium of the first direction: above (TRUE) or below the original surface *)
Above(s) == (s.wo[3] > 0) # s.under
(* --- invariants --- *)
Whole(s) == Unit(s.wo) /\ Unit(s.wi)
(* the angles between the directions and the normal stay *)
Angles(s) == LET z == IF s.under THEN <<Frac(-s.wo[3], s.wo[4]), Frac(-s.wi[3], s.wi[4])>> ELSE <<Cos(s.wo), Cos(s.wi)>>
             IN <<IF s.swapped THEN <<z[2], z[1]>> ELSE z, Dot(s.wo, s.wi)>>
(* with two axes marked on the surface, the components along them, but for signs *)
Marks(s) == LET A(d) == LET x == Frac(Abs(d[1]), d[4]) y == Frac(Abs(d[2]), d[4]) IN IF s.crossed THEN <<y, x>> ELSE <<x, y>>
                a == A(s.wo) b == A(s.wi)
            IN IF s.swapped THEN <<b, a>> ELSE <<a, b>>
(* --- perfect mirrors and refraction, indexes of the media p above and q below --- *)
Opposite(d) == <<-d[1], -d[2], d[3], d[4]>>
(* squared sine of the transmitted angle, exact *)
Sin2(d, p, q) == LET e == IF d[3] > 0 THEN p ELSE q
                     t == IF d[3] > 0 THEN q ELSE p
                 IN Frac(e * e * (d[4] * d[4] - d[3] * d[3]), t * t * d[4] * d[4])
Total(d, p, q) == Sin2(d, p, q)[1] >= Sin2(d, p, q)[2]
(* components of the transmitted direction: two fractions, and the square of the third with its sign *)
Through(d, p, q) ==
  LET e == IF d[3] > 0 THEN p ELSE q
      t == IF d[3] > 0 THEN q ELSE p
      s == Sin2(d, p, q)
  IN <<Frac(-e * d[1], t * d[4]), Frac(-e * d[2], t * d[4]), Frac(s[2] - s[1], s[2]), d[3] < 0>>
(* reflected part at the angles whose sines and cosines are all fractions: cosines a, b in media e, t *)
Reflected(a, b, e, t) ==
  LET P == LET n == e * a[1] * b[2] - t * b[1] * a[2] m == e * a[1] * b[2] + t * b[1] * a[2] g == Gcd(Abs(n), m) IN <<n \div g, m \div g>>
      Q == LET n == t * a[1] * b[2] - e * b[1] * a[2] m == t * a[1] * b[2] + e * b[1] * a[2] g == Gcd(Abs(n), m) IN <<n \div g, m \div g>>
  IN <<P, Q>>    \* half the sum of the squares
=============================================================================
