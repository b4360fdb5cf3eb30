------------------------------- MODULE TexAlg -------------------------------
(* Laws of the lookups of Texture.tla, for every coordinate of a small grid. *)
EXTENDS Texture
CONSTANTS Sides, Range
VARIABLES s, c, d
Init == s \in Sides /\ c \in Range /\ d \in Range
Next == UNCHANGED <<s, c, d>>
Pyr == Levels(Base(5, s), s)
AbsI(x) == IF x < 0 THEN -x ELSE x
(* distance on the repeated axis between coordinate c and the centre of x, *)
(* in units of 1/(2 s Q)                                                    *)
Dist(x, e) == LET m == (2 * s * e - (2 * x + 1) * Q) % (2 * s * Q) IN IF m > s * Q THEN 2 * s * Q - m ELSE m
NearestIsNearest == \A z \in Nearest(s, c, d) : \A x \in 0..(s-1) :
   Dist(z[1], c) <= Dist(x, c) /\ Dist(z[2], d) <= Dist(x, d)
AllNearest == \A x \in 0..(s-1) : (\A y \in 0..(s-1) : Dist(x, c) <= Dist(y, c)) =>
   x \in {z[1] : z \in Nearest(s, c, d)}
Repeats == Nearest(s, c, d) = Nearest(s, c + Q, d - 2 * Q)
           /\ \A ch \in Chan : Lin(Pyr[1], s, c, d, ch) = Lin(Pyr[1], s, c - Q, d + 3 * Q, ch)
(* at the centre of a texel only that texel counts *)
Centred == ((2 * s * c - Q) % (2 * Q) = 0 /\ (2 * s * d - Q) % (2 * Q) = 0) =>
   \A ch \in Chan : {Lin(Pyr[1], s, c, d, ch)} = {Pyr[1][z[1]][z[2]][ch] : z \in Nearest(s, c, d)}
Between == \A ch \in Chan : LET V == {Pyr[1][x][y][ch] : x \in 0..(s-1), y \in 0..(s-1)} v == Lin(Pyr[1], s, c, d, ch) IN
   (\E a \in V : a <= v) /\ (\E a \in V : a >= v)
(* the filter does not depend on which side of the footprint is named first *)
Swap == (c % 4 = 0 /\ d % 4 = 0) => Ewa(Pyr[1], s, c, d, <<2, 1, 0, 3>>) = Ewa(Pyr[1], s, c, d, <<1, 2, 3, 0>>)
=============================================================================
