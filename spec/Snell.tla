---------------------------------- MODULE Snell ----------------------------------
(* Perfect mirrors and refraction (Scatter): directions and media drawn, the     *)
(* exact reflected and transmitted directions, and the reflected part where it  *)
(* is a fraction: along the normal and at angles of right triangles.            *)
EXTENDS Scatter, TLC, Json
VARIABLES c, n
H == INSTANCE ScatHist WITH hist <- <<>>, lobe <- [kind |-> "none"], stage <- "", Steps <- 1
R(S, k) == RandomElement({x \in S : k >= 0})
(* sines and cosines of right triangles: <<sine, cosine, length>> *)
Tri == {<<3, 4, 5>>, <<4, 3, 5>>, <<5, 12, 13>>, <<12, 5, 13>>, <<8, 15, 17>>, <<15, 8, 17>>, <<0, 1, 1>>}
Media == {<<1, 1>>, <<4, 3>>, <<3, 2>>, <<5, 4>>, <<2, 1>>}
(* two triangles give the ratio of the media: p * sine1 = q * sine2 *)
Fit(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN <<2, 3>> ELSE LET f == Frac(b[1] * a[3], a[1] * b[3]) IN f
Init == c = [k |-> "none"] /\ n = 0
Free == \E d \in {H!Dir(n)} : \E p \in {R(Media, n)} : \E q \in {R(Media \ {p}, n)} :
        LET P == p[1] * q[2] Q == q[1] * p[2]
        IN c' = [k |-> "free", d |-> d, p |-> p, q |-> q, total |-> Total(d, P, Q), edge |-> Sin2(d, P, Q)[1] = Sin2(d, P, Q)[2],
                 out |-> IF Total(d, P, Q) THEN <<>> ELSE Through(d, P, Q), back |-> Opposite(d)]
Exact == \E a \in {R(Tri, n)} : \E b \in {R(IF a[1] = 0 THEN {<<0, 1, 1>>} ELSE Tri \ {<<0, 1, 1>>}, n)} : \E up \in {R(BOOLEAN, n)} : \E t \in {R(Turns, n)} :
        LET f == Fit(a, b) IN
        c' = [k |-> "exact", d |-> Turn(<<a[1], 0, IF up THEN a[2] ELSE -a[2], a[3]>>, t),
              out |-> Turn(<<-b[1], 0, IF up THEN -b[2] ELSE b[2], b[3]>>, t), up |-> up,
              (* media e of the first direction, t of the other: e / t = f *)
              e |-> f[1], t |-> f[2], r |-> Reflected(<<a[2], a[3]>>, <<b[2], b[3]>>, f[1], f[2])]
Next == n < 40 /\ n' = n + 1 /\ (Free \/ Exact)
(* the exact one obeys the law, and agrees with the general one *)
Law == c.k = "exact" => LET P == IF c.up THEN c.e ELSE c.t Q == IF c.up THEN c.t ELSE c.e w == Through(c.d, P, Q)
       IN ~Total(c.d, P, Q) /\ w[1] = Frac(c.out[1], c.out[4]) /\ w[2] = Frac(c.out[2], c.out[4])
          /\ w[3] = Frac(c.out[3] * c.out[3], c.out[4] * c.out[4]) /\ w[4] = (c.out[3] > 0)
Emit == c.k # "none" => PrintT("@@" \o ToJson(c))
=============================================================================
