------------------------------ MODULE Texture -------------------------------
(* Lookups in a square, repeated texture: which texels a lookup may see and  *)
(* how they are weighted.  Coordinates are integers in units of 1/Q of the   *)
(* texture; derivatives of the footprint are in half texels of a level.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Q, Weights          \* Weights: 128 gaussian weights, scaled
Chan == 1..4
(* the picture: a formula shared with the harness *)
Pic(seed, x, y, ch) == (x * (ch * 2 + 35) + y * 91 + x * y * 7 + seed * ch) % 256
RECURSIVE Levels(_, _)
Half(l, s) == [x \in 0..(s \div 2 - 1) |-> [y \in 0..(s \div 2 - 1) |-> [ch \in Chan |->
   (l[2*x][2*y][ch] + l[2*x+1][2*y][ch] + l[2*x][2*y+1][ch] + l[2*x+1][2*y+1][ch]) \div 4]]]
Levels(l, s) == IF s = 1 THEN <<l>> ELSE <<l>> \o Levels(Half(l, s), s \div 2)
Base(seed, s) == [x \in 0..(s-1) |-> [y \in 0..(s-1) |-> [ch \in Chan |-> Pic(seed, x, y, ch)]]]
RECURSIVE Log2(_)
Log2(s) == IF s <= 1 THEN 0 ELSE 1 + Log2(s \div 2)
RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)
(* floor division for any sign *)
Fl(a, b) == IF a >= 0 THEN a \div b ELSE -((-a + b - 1) \div b)
(* ---- nearest texel: the cell holding the coordinate; both at a border *)
Cells(s, c) == IF (s * c) % Q = 0 THEN {Fl(s * c, Q) % s, (Fl(s * c, Q) - 1) % s}
               ELSE {Fl(s * c, Q) % s}
Nearest(s, c, d) == {<<x, y>> : x \in Cells(s, c), y \in Cells(s, d)}
(* ---- bilinear: weights over 2Q along each axis *)
Lin(l, s, c, d, ch) ==
  LET a == 2 * c * s - Q  b == 2 * d * s - Q
      x == Fl(a, 2*Q)     y == Fl(b, 2*Q)
      p == a % (2*Q)      q == b % (2*Q)
      t(i, j) == l[i % s][j % s][ch]
  IN ((t(x, y) * (2*Q - p) + t(x+1, y) * p) * (2*Q - q)
     + (t(x, y+1) * (2*Q - p) + t(x+1, y+1) * p) * q) \div (4*Q*Q)
(* ---- elliptical weighted average: all texels closer than the ellipse *)
(* e: footprint <<dudx, dudy, dvdx, dvdy>> in half texels; the position in  *)
(* quarter texels from the centre of texel 0                                 *)
Sq(x) == x * x
RECURSIVE Sum(_, _, _)
Sum(f, i, n) == IF i > n THEN 0 ELSE f[i] + Sum(f, i + 1, n)
RECURSIVE Root(_, _)
Root(n, r) == IF Sq(r + 1) > n THEN r ELSE Root(n, r + 1)
Ewa(l, s, c, d, e) ==
  LET A == Sq(e[3]) + Sq(e[4]) + 4
      B == -2 * (e[1]*e[3] + e[2]*e[4])
      C == Sq(e[1]) + Sq(e[2]) + 4
      D == A * C - Sq(e[1]*e[3] + e[2]*e[4])
      u4 == Fl(4 * c * s, Q) - 2   v4 == Fl(4 * d * s, Q) - 2
      ru == Root(C, 0) \div 2 + 1   rv == Root(A, 0) \div 2 + 1
      xs == (Fl(u4, 4) - ru)..(Fl(u4, 4) + ru + 1)
      ys == (Fl(v4, 4) - rv)..(Fl(v4, 4) + rv + 1)
      N(x, y) == A * Sq(4*x - u4) + B * (4*x - u4) * (4*y - v4) + C * Sq(4*y - v4)
      in == {<<x, y>> \in xs \X ys : N(x, y) < 4 * D}
      RECURSIVE Acc(_, _)
      Acc(S, acc) ==
        IF S = {} THEN acc
        ELSE LET z == CHOOSE z \in S : TRUE
                 w == Weights[1 + (32 * N(z[1], z[2])) \div D]
                 t == l[z[1] % s][z[2] % s]
             IN Acc(S \ {z}, <<acc[1] + w, [ch \in Chan |-> acc[2][ch] + w * t[ch]]>>)
      r == Acc(in, <<0, [ch \in Chan |-> 0]>>)
  IN [ch \in Chan |-> r[2][ch] \div r[1]]
=============================================================================
