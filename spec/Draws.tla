---------------------------------- MODULE Draws ----------------------------------
(* What "drawn with the stated density" means.  The directions around an axis   *)
(* are divided into rings and sectors of equal shares; every even grid of       *)
(* random numbers must put the same part of its points in every cell.           *)
(* The share of the directions within some angle of the axis, for each model:   *)
(*   diffuse               square of the sine of the angle                      *)
(*   Trowbridge-Reitz      T / (1 + T), T the squared tangent, each component   *)
(*                         divided by the roughness of its axis                 *)
(*   Blinn, exponent e     1 - cosine to the power e + 1                        *)
(*   Beckmann              1 - exp(-T)                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fr(p, q) == <<p, q>>
Lt(a, b) == a[1] * b[2] < b[1] * a[2]
Le(a, b) == ~Lt(b, a)
(* Trowbridge-Reitz: T where the share of it is f, and back *)
Tan2(f) == <<f[1], f[2] - f[1]>>
Share(t) == <<t[1], t[1] + t[2]>>
(* rings: k of K; the ring of a fraction; sectors likewise *)
Ring(f, K) == (f[1] * K) \div f[2]
(* --- one grid: points drawn one after the other --- *)
CONSTANTS N, K, S
VARIABLES left, count
Cells == (0..K - 1) \X (0..S - 1)
Init == left = (0..N - 1) \X (0..N - 1) /\ count = [c \in Cells |-> 0]
(* numbers (2 i + 1) / 2 N and (2 j + 1) / 2 N, the first for the ring *)
CellOf(i, j) ==
  LET t == Tan2(Fr(2 * i + 1, 2 * N)) IN <<Ring(Share(t), K), Ring(Fr(2 * j + 1, 2 * N), S)>>
Draw == \E p \in {CHOOSE x \in left : TRUE} :
        left' = left \ {p} /\ count' = [count EXCEPT ![CellOf(p[1], p[2])] = @ + 1]
Next == left # {} /\ Draw
Even == left = {} => \A c \in Cells : count[c] * K * S = N * N
Never == \A c \in Cells : count[c] * K * S <= N * N
(* the share of a ring lies between its width times the least and the greatest  *)
(* density in it: 1 / (1 + T) squared is the density of T                       *)
Bounded == \A k \in 0..K - 2 :
  LET a == Tan2(Fr(k, K)) b == Tan2(Fr(k + 1, K))
      w == <<b[1] * a[2] - a[1] * b[2], b[2] * a[2]>>           \* width in T
      Dens(t) == <<t[2] * t[2], (t[1] + t[2]) * (t[1] + t[2])>>
      Times(x, y) == <<x[1] * y[1], x[2] * y[2]>>
  IN Le(Times(w, Dens(b)), Fr(1, K)) /\ Le(Fr(1, K), Times(w, Dens(a)))
Inverse == \A k \in 0..K - 1 : LET s == Share(Tan2(Fr(k, K))) IN s[1] * K = k * s[2]
=============================================================================
