-------------------------------- MODULE Prim --------------------------------
(* Rays against one transformed primitive, exactly.  Lengths are in quarters *)
(* of a unit: the object-space box is [0,4]^3, the sphere has radius 4.      *)
(* The transformation is an integer matrix m (columns scaled, rotated by     *)
(* quarter turns, possibly mirrored and sheared) and a translation; object   *)
(* space is reached with the adjugate, so that an object-space point is an   *)
(* integer vector over q = |det m|.                                          *)
EXTENDS Lattice, TLC, Json
CONSTANTS NRays, World
VARIABLES kind, m, tr, tri, rays
vars == <<kind, m, tr, tri, rays>>
Rnd(S) == RandomElement(S)
MV(a, v) == <<Dot(a[1], v), Dot(a[2], v), Dot(a[3], v)>>
Add(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
Mul(k, a) == <<k*a[1], k*a[2], k*a[3]>>
Col(a, j) == <<a[1][j], a[2][j], a[3][j]>>
Adj(a) == <<Cross(Col(a, 2), Col(a, 3)), Cross(Col(a, 3), Col(a, 1)), Cross(Col(a, 1), Col(a, 2))>>
Det(a) == Dot(Col(a, 1), Cross(Col(a, 2), Col(a, 3)))
Sg(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
(* q > 0 and inv*v = q * m^-1 * v *)
Q == Det(m)*Sg(Det(m))
Inv == LET s == Sg(Det(m)) a == Adj(m) IN <<Mul(s, a[1]), Mul(s, a[2]), Mul(s, a[3])>>

(* ---- unit box ---- *)
R(n, d) == IF d > 0 THEN <<n, d>> ELSE <<-n, -d>>
NearT(o, d, q) == IF d > 0 THEN R(-o, d) ELSE R(4*q - o, d)
FarT(o, d, q) == IF d > 0 THEN R(4*q - o, d) ELSE R(-o, d)
BoxRes(o, d, q) ==
  LET ax == {i \in 1..3 : d[i] # 0}
      out == \E i \in 1..3 : d[i] = 0 /\ (o[i] < 0 \/ o[i] > 4*q)
      edge == \E i \in 1..3 : d[i] = 0 /\ (o[i] = 0 \/ o[i] = 4*q)
      n == [i \in ax |-> NearT(o[i], d[i], q)]
      f == [i \in ax |-> FarT(o[i], d[i], q)]
      ni == CHOOSE i \in ax : \A j \in ax : Leq(n[j], n[i])
      fi == CHOOSE i \in ax : \A j \in ax : Leq(f[i], f[j])
      in == n[ni][1] > 0
      t == IF in THEN n[ni] ELSE f[fi]
      faces == IF in THEN {<<i, -Sg(d[i])>> : i \in {k \in ax : Same(n[k], t)}}
               ELSE {<<i, Sg(d[i])>> : i \in {k \in ax : Same(f[k], t)}}
  IN IF out \/ Less(f[fi], n[ni]) \/ f[fi][1] < 0 THEN [k |-> "none"]
     ELSE IF edge \/ Same(n[ni], f[fi]) THEN [k |-> "touch"]
     ELSE IF f[fi][1] = 0 THEN [k |-> "none"]
     ELSE [k |-> "hit", t |-> t, n |-> {Mul(x[2], Inv[x[1]]) : x \in faces}]

(* ---- unit sphere: the roots of A t^2 + 2 B t + C ---- *)
SphRes(o, d, q) ==
  LET A == Dot(d, d)
      B == Dot(o, d)
      C == Dot(o, o) - 16*q*q
      disc == B*B - A*C
  IN IF disc < 0 THEN [k |-> IF -disc <= (B*B) \div 500 THEN "touch" ELSE "none"]
     ELSE IF disc <= (B*B) \div 500 THEN [k |-> "touch"]
     ELSE IF C > 0 THEN IF B < 0 THEN [k |-> "hit", A |-> A, B |-> B, D |-> disc, r |-> -1]
                        ELSE [k |-> "none"]
     ELSE IF C = 0 /\ B >= 0 THEN [k |-> "none"]
     ELSE [k |-> "hit", A |-> A, B |-> B, D |-> disc, r |-> 1]

(* ---- triangle (object space vertices, given normals and coordinates) ---- *)
TriRes(o, d, q) ==     \* o, d over q; the vertices are brought over q too
  LET t == [a |-> Mul(q, tri.a), b |-> Mul(q, tri.b), c |-> Mul(q, tri.c)]
      h == TriHit(o, d, t)
      ba == Sub(t.b, t.a)
      ca == Sub(t.c, t.a)
      pv == Cross(d, ca)
      det0 == Dot(pv, ba)
      s == IF det0 < 0 THEN -1 ELSE 1
      tv == Sub(o, t.a)
      u == s*Dot(pv, tv)
      v == s*Dot(d, Cross(tv, ba))
      det == s*det0
      w == det - u - v
      nrm == MV(<<Col(Inv, 1), Col(Inv, 2), Col(Inv, 3)>>,
                <<w*tri.na[1] + u*tri.nb[1] + v*tri.nc[1],
                  w*tri.na[2] + u*tri.nb[2] + v*tri.nc[2],
                  w*tri.na[3] + u*tri.nb[3] + v*tri.nc[3]>>)
      uv == <<w*tri.ta[1] + u*tri.tb[1] + v*tri.tc[1], w*tri.ta[2] + u*tri.tb[2] + v*tri.tc[2]>>
      e1 == MV(m, Sub(tri.b, tri.a))
      e2 == MV(m, Sub(tri.c, tri.a))
      du1 == tri.tb[1] - tri.ta[1]
      dv1 == tri.tb[2] - tri.ta[2]
      du2 == tri.tc[1] - tri.ta[1]
      dv2 == tri.tc[2] - tri.ta[2]
      dt == Sg(du1*dv2 - du2*dv1)
  IN IF h.k # "hit" THEN [k |-> h.k]
     ELSE [k |-> "hit", t |-> h.t, n |-> {nrm}, uv |-> <<uv[1], uv[2], det>>,
           du |-> Mul(dt, Sub(Mul(dv2, e1), Mul(dv1, e2))),
           dv |-> Mul(dt, Sub(Mul(du1, e2), Mul(du2, e1)))]

Res(o, d) == LET oo == MV(Inv, Sub(o, tr))
                 dd == MV(Inv, d)
             IN CASE kind = "box" -> BoxRes(oo, dd, Q)
                  [] kind = "sphere" -> SphRes(oo, dd, Q)
                  [] OTHER -> TriRes(oo, dd, Q)

Init == kind = "" /\ m = <<>> /\ tr = <<0, 0, 0>> /\ tri = <<>> /\ rays = <<>>
Perms == {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<1, 3, 2>>, <<3, 2, 1>>, <<2, 1, 3>>}
E3(i, x) == [j \in 1..3 |-> IF j = i THEN x ELSE 0]
RV(n) == <<Rnd(-n..n), Rnd(-n..n), Rnd(-n..n)>>
Scales == {1, 1, 2, 3}
RMat(k) ==
  LET p == Rnd(Perms)
      uni == k = "u"
      s1 == Rnd(1..3)
      s == IF uni THEN <<s1, s1, s1>> ELSE <<s1, Rnd(1..3), Rnd(1..3)>>
      g == <<2*Rnd(0..1) - 1, 2*Rnd(0..1) - 1, 2*Rnd(0..1) - 1>>
      base == <<E3(p[1], s[1]*g[1]), E3(p[2], s[2]*g[2]), E3(p[3], s[3]*g[3])>>
      sh == Rnd(1..3)
  IN IF k = "s" THEN [base EXCEPT ![sh][1 + (p[sh] % 3)] = Rnd({-1, 1})] ELSE base
Uvs == {<<<<0, 0>>, <<1, 0>>, <<0, 1>>>>, <<<<1, 2>>, <<4, 3>>, <<2, 7>>>>,
        <<<<0, 3>>, <<3, 3>>, <<1, -2>>>>, <<<<5, 1>>, <<1, 0>>, <<-2, 4>>>>}
RTri(q) == LET a == RV(4) b == RV(4) c == RV(4) x == Rnd(Uvs) y == Rnd(1..2) IN
  [a |-> a, b |-> b, c |-> c,
   na |-> IF y = 1 THEN <<0, 0, 1>> ELSE <<Rnd(-1..2), Rnd(-1..2), 3>>,
   nb |-> IF y = 1 THEN <<0, 0, 1>> ELSE <<Rnd(-1..2), Rnd(-1..2), 3>>,
   nc |-> IF y = 1 THEN <<0, 0, 1>> ELSE <<Rnd(-1..2), Rnd(-1..2), 3>>,
   ta |-> x[1], tb |-> x[2], tc |-> x[3]]
Setup == /\ kind = ""
         /\ \E k \in {Rnd({"box", "sphere", "tri"})}, mm \in {RMat(Rnd({"u", "n", "s"}))},
              t \in {RV(World)}, x \in {RTri(0)} :
            /\ k # "tri" \/ Cross(Sub(x.b, x.a), Sub(x.c, x.a)) # <<0, 0, 0>>
            /\ kind' = k /\ m' = mm /\ tr' = t /\ tri' = x
         /\ UNCHANGED rays
Aim(q) == CASE kind = "box" -> <<Rnd(-1..5), Rnd(-1..5), Rnd(-1..5)>>
            [] kind = "sphere" -> RV(4)
            [] OTHER -> LET g == Add(Add(tri.a, tri.b), Mul(2, tri.c)) IN
                        IF Rnd(1..3) = 1 THEN RV(3) ELSE <<g[1] \div 4, g[2] \div 4, g[3] \div 4>>
Comp(q) == IF Rnd(1..3) = 1 THEN 0 ELSE Rnd(-2..2)
Shoot == /\ kind # "" /\ Len(rays) < NRays
         /\ \E d \in {<<Comp(0), Comp(0), Comp(0)>>}, a \in {Aim(0)},
              j \in {RV(1)}, k \in {Rnd({0, 0, 1, 2, 3, 5, 8, -3})},
              lim \in {Rnd({0, 0, 0, 1, 2, 4, 7})} :
            LET p == Add(Add(MV(m, a), tr), IF Rnd(1..2) = 1 THEN j ELSE <<0, 0, 0>>)
            IN \E o \in {Sub(p, Mul(k, d))} :
               IF d = <<0, 0, 0>> THEN UNCHANGED rays
               ELSE rays' = Append(rays, [o |-> o, d |-> d, lim |-> lim, r |-> Res(o, d)])
         /\ UNCHANGED <<kind, m, tr, tri>>
Next == Setup \/ Shoot
Emit == (Len(rays) = NRays) => PrintT("@@" \o ToJson([kind |-> kind, m |-> m, tr |-> tr, tri |-> tri, rays |-> rays]))
=============================================================================
