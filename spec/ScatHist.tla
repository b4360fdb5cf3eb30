-------------------------------- MODULE ScatHist --------------------------------
(* Histories of Scatter for lobes of every kind, and samples taken on the way.  *)
EXTENDS Scatter, TLC, Json
CONSTANT Steps
VARIABLES hist, lobe, stage
R(S, k) == RandomElement({x \in S : k >= 0})
Quads == {<<1, 2, 2, 3>>, <<2, 3, 6, 7>>, <<1, 4, 8, 9>>, <<4, 4, 7, 9>>, <<2, 6, 9, 11>>, <<6, 6, 7, 11>>, <<3, 4, 12, 13>>, <<2, 5, 14, 15>>,
          <<2, 10, 11, 15>>, <<1, 12, 12, 17>>, <<8, 9, 12, 17>>, <<0, 3, 4, 5>>, <<0, 5, 12, 13>>, <<0, 8, 15, 17>>, <<0, 0, 1, 1>>, <<1, 6, 18, 19>>, <<6, 10, 15, 19>>}
Perm(q, p) == CASE p = 1 -> q [] p = 2 -> <<q[2], q[1], q[3], q[4]>> [] p = 3 -> <<q[3], q[2], q[1], q[4]>>
                [] p = 4 -> <<q[1], q[3], q[2], q[4]>> [] p = 5 -> <<q[2], q[3], q[1], q[4]>> [] p = 6 -> <<q[3], q[1], q[2], q[4]>>
Signs(q, a, b, c) == <<IF a THEN -q[1] ELSE q[1], IF b THEN -q[2] ELSE q[2], IF c THEN -q[3] ELSE q[3], q[4]>>
Dir(k) == LET q == Perm(R(Quads, k), R(1..6, k))
              d == IF q[3] = 0 THEN IF q[1] # 0 THEN Perm(q, 3) ELSE Perm(q, 4) ELSE q
          IN Signs(d, R(BOOLEAN, k), R(BOOLEAN, k + 1), R(BOOLEAN, k + 2))
(* along the normal, or close to it *)
Dirs0 == {<<0, 0, 1, 1>>, <<21, 0, 220, 221>>, <<0, -21, 220, 221>>, <<0, 0, -1, 1>>}
Kinds == {"lambert", "oren", "blinn", "beckmann", "ggx", "aniso", "metal", "metalaniso", "tblinn", "tbeckmann", "tggx", "taniso"}
Through2(kind) == kind \in {"tblinn", "tbeckmann", "tggx", "taniso"}
Marked(kind) == kind \in {"aniso", "metalaniso", "taniso"}
(* roughness is one over these *)
Rough == {1, 2, 3, 4, 5, 8, 10}
Init == hist = <<>> /\ lobe = [kind |-> "none"] /\ stage = "pair"
Side(a, b, same) == IF (a[3] * b[3] > 0) = same THEN b ELSE Flip(b)
Pair ==
  /\ stage = "pair"
  /\ \E kind \in {R(Kinds, 0)} :
     \E a \in {Dir(1)} : \E b \in {Dir(2)} : \E x \in {R(1..8, 3)} :
     \E other \in {R(1..8, 4)} :
     \E n1 \in {R({<<0, 0, 1, 1>>, <<0, 0, -1, 1>>}, 12)} : \E n2 \in {R(Dirs0, 13)} :
     \E u \in {R(Rough, 5)} : \E v \in {R(Rough, 6)} : \E e \in {R(Rough, 10)} : \E even \in {R(1..4, 11)} :
       (* a mirrored pair often, as the normal is then between them *)
       /\ hist' = <<Start(IF x = 2 THEN n1 ELSE a,
                         IF x = 1 THEN Side(a, Opposite(a), ~Through2(kind))
                         ELSE IF x = 2 THEN Side(n1, n2, ~Through2(kind))
                         ELSE Side(a, b, IF other = 1 THEN Through2(kind) ELSE ~Through2(kind)))>>
       /\ lobe' = [kind |-> kind, u |-> IF even <= 1 THEN e ELSE u, v |-> IF even <= 1 THEN e ELSE v,
                   p |-> R({<<1, 1>>, <<4, 3>>}, 7), q |-> R({<<3, 2>>, <<2, 1>>, <<5, 4>>}, 8), sigma |-> R({0, 5, 15, 30, 60, 90}, 9)]
  /\ stage' = "walk"
S == hist[Len(hist)]
Allowed(t) == IF Marked(lobe.kind) THEN t \in Square ELSE TRUE
Act(s, c, t) == CASE c = 1 -> StepTurn(s, t) [] c = 2 -> StepMirror(s) [] c = 3 -> StepCross(s) [] c = 4 -> StepFlip(s) [] OTHER -> StepSwap(s)
Go ==
  /\ stage = "walk" /\ Len(hist) < Steps
  /\ \E n \in {Len(hist)} :
     \E t \in {R({u \in Turns : Allowed(u)}, n)} : \E c \in {R(1..5, n)} :
       (* numbers stay small *)
       hist' = Append(hist, IF c = 1 /\ S.wo[4] * S.wi[4] * t[3] > 30000 THEN StepMirror(S) ELSE Act(S, c, t))
  /\ stage' = IF Len(hist) = Steps - 1 THEN "done" ELSE "walk"
  /\ UNCHANGED lobe
Next == Pair \/ Go
(* nothing but the angles counts, and the axes where there are some *)
Same == \A i \in 1..Len(hist) :
          /\ Whole(hist[i])
          /\ Angles(hist[i]) = Angles(hist[1])
          /\ (Marked(lobe.kind) => Marks(hist[i]) = Marks(hist[1]))
(* What the model of Trowbridge and Reitz says exactly.  The vector half way    *)
(* between two directions on the same side, not of unit length; the squared     *)
(* tangents are divided by the squares of the roughnesses.                      *)
Half(a, b) == <<a[1] * b[4] + b[1] * a[4], a[2] * b[4] + b[2] * a[4], a[3] * b[4] + b[3] * a[4]>>
Sq(n) == n * n
Model(s, u, v) ==
  LET h == Half(s.wo, s.wi)
      nn == Sq(h[1]) + Sq(h[2]) + Sq(h[3])
      do == h[1] * s.wo[1] + h[2] * s.wo[2] + h[3] * s.wo[3]
      di == h[1] * s.wi[1] + h[2] * s.wi[2] + h[3] * s.wi[3]
      Shade(d) == Frac(Sq(d[1] * v) + Sq(d[2] * u), Sq(u * v * d[3]))
  IN [w |-> Frac(Sq(u * h[1]) + Sq(v * h[2]) + Sq(h[3]), nn),     \* D = u v / (pi w w)
      j |-> Frac(Abs(h[3]) * s.wo[4], Abs(do)),                   \* cosine of the half vector over that between it and wo
      c |-> <<Abs(di), s.wi[4], nn>>,                             \* cosine of the angle of incidence: c1 / (c2 sqrt(c3))
      go |-> Shade(s.wo), gi |-> Shade(s.wi)]
U == lobe.u
V == IF Marked(lobe.kind) THEN lobe.v ELSE lobe.u
(* whether some facet sends one of the directions to the other through the      *)
(* surface: both must see it from their own side.  Media e of the first, t of   *)
(* the second; the facet lies along e a + t b.                                  *)
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Possible(s, p, q) ==
  LET e == IF Above(s) THEN p[1] * q[2] ELSE q[1] * p[2]
      t == IF Above(s) THEN q[1] * p[2] ELSE p[1] * q[2]
      c == Dot(s.wo, s.wi)
      ho == e * c[2] + t * c[1]           \* along the first direction, and the second
      hi == e * c[1] + t * c[2]
      hz == e * s.wo[3] * s.wi[4] + t * s.wi[3] * s.wo[4]
  IN Sgn(ho) * Sgn(hz) * Sgn(s.wo[3]) = 1 /\ Sgn(hi) * Sgn(hz) * Sgn(s.wi[3]) = 1
CanPass == Through2(lobe.kind) /\ hist[1].wo[3] * hist[1].wi[3] < 0 /\ Possible(hist[1], lobe.p, lobe.q)
Reversible == hist # <<>> /\ Through2(lobe.kind) =>
  \A i \in 1..Len(hist) : Possible(hist[i], lobe.p, lobe.q) = Possible(hist[1], lobe.p, lobe.q)
(* rough diffuse surfaces: the product of the cosine of the angle around the    *)
(* normal, the sine of the larger and the tangent of the smaller angle with it  *)
Diffuse(s) ==
  LET q == s.wo[1] * s.wi[1] + s.wo[2] * s.wi[2]
      Far == Abs(s.wo[3]) * s.wi[4] > Abs(s.wi[3]) * s.wo[4]
  IN IF q <= 0 THEN <<0, 1>> ELSE Frac(q, IF Far THEN Abs(s.wo[3]) * s.wi[4] ELSE Abs(s.wi[3]) * s.wo[4])
Round == hist # <<>> /\ lobe.kind = "oren" => \A i \in 1..Len(hist) : Diffuse(hist[i]) = Diffuse(hist[1])
Exactly == lobe.kind \in {"ggx", "metal", "aniso", "metalaniso"} /\ hist[1].wo[3] * hist[1].wi[3] > 0
(* exchanging the two directions, or turning them by quarters, keeps all that *)
Fair == hist # <<>> /\ Exactly =>
  LET m == Model(hist[1], U, V) IN
  /\ LET k == Model(StepSwap(hist[1]), U, V) IN k.w = m.w /\ k.go = m.gi /\ k.gi = m.go /\ k.j = m.j
  /\ LET k == Model(StepMirror(hist[1]), U, V) IN k = m
  /\ LET k == Model(StepFlip(hist[1]), U, V) IN k = m
  /\ LET k == Model(StepCross(hist[1]), V, U) IN k = m
  (* the distribution is at most that of facets along the axis *)
  /\ (U > 1 /\ V > 1 => m.w[1] >= m.w[2])
Draw(k) == R(0..63, k)
Emit == stage = "done" => PrintT("@@" \o ToJson([lobe |-> lobe, thru |-> Through2(lobe.kind),
          hist |-> [i \in 1..Len(hist) |-> [s |-> hist[i], above |-> Above(hist[i]), r |-> [k \in 1..6 |-> <<Draw(i * 7 + k), Draw(i * 7 + k + 1)>>]]],
          possible |-> CanPass, diffuse |-> Diffuse(hist[1]), exact |-> IF Exactly THEN Model(hist[1], U, V) ELSE [w |-> <<>>]]))
=============================================================================
