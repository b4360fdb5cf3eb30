-------------------------------- MODULE Xform --------------------------------
(* Affine transformations built by multiplying elementary ones on the left   *)
(* (applied after) or on the right (applied before).  The transformation is  *)
(* p -> (m p + t) / 2^e with integer m and t; halving is what small objects  *)
(* need.  Everything an object derives from it (images of points, vectors,   *)
(* normals and rays, the inverse, the bounding box) follows exactly.         *)
EXTENDS Lattice, TLC, Json
CONSTANTS NOps, Sim
VARIABLES m, t, e, ops
vars == <<m, t, e, ops>>
Rnd(S) == RandomElement(S)
MV(a, v) == <<Dot(a[1], v), Dot(a[2], v), Dot(a[3], v)>>
Add(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
Mul(k, a) == <<k*a[1], k*a[2], k*a[3]>>
Col(a, j) == <<a[1][j], a[2][j], a[3][j]>>
Tr(a) == <<Col(a, 1), Col(a, 2), Col(a, 3)>>
MM(a, b) == LET c == Tr(b) IN [i \in 1..3 |-> <<Dot(a[i], c[1]), Dot(a[i], c[2]), Dot(a[i], c[3])>>]
Adj(a) == <<Cross(Col(a, 2), Col(a, 3)), Cross(Col(a, 3), Col(a, 1)), Cross(Col(a, 1), Col(a, 2))>>
Det(a) == Dot(Col(a, 1), Cross(Col(a, 2), Col(a, 3)))
Id == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Zero == <<0, 0, 0>>
P2(k) == 2^k
Diag(s) == <<<<s[1], 0, 0>>, <<0, s[2], 0>>, <<0, 0, s[3]>>>>
C4(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
S4(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
Rot(ax, k) == LET c == C4(k) s == S4(k) IN
  CASE ax = 1 -> <<<<1, 0, 0>>, <<0, c, -s>>, <<0, s, c>>>>
    [] ax = 2 -> <<<<c, 0, s>>, <<0, 1, 0>>, <<-s, 0, c>>>>
    [] OTHER -> <<<<c, -s, 0>>, <<s, c, 0>>, <<0, 0, 1>>>>
(* elementary transformation: name, parameters, [m, t, e] *)
El(nm, par, mm, tt, ee) == [n |-> nm, p |-> par, m |-> mm, t |-> tt, e |-> ee]
Trans(v) == El("T", v, Id, v, 0)
Scale(s) == El("S", s, Diag(s), Zero, 0)
Turn(ax, k) == El("R", <<ax, k, 0>>, Rot(ax, k), Zero, 0)
Shrink(k) == El("H", <<k, 0, 0>>, Id, Zero, k)
Shear(i, j, s) == El("G", <<i, j, s>>, [Id EXCEPT ![i][j] = s], Zero, 0)

Left(x) == /\ m' = MM(x.m, m)
           /\ t' = Add(MV(x.m, t), Mul(P2(e), x.t))
           /\ e' = e + x.e
Right(x) == /\ m' = MM(m, x.m)
            /\ t' = Mul(P2(x.e), Add(MV(m, x.t), t))
            /\ e' = e + x.e
Img(p) == Add(MV(m, p), t)                        \* over 2^e
ImgP(mm, tt, p) == Add(MV(mm, p), tt)
Big == LET M == {m[i][j] : i \in 1..3, j \in 1..3} IN
       \E x \in M : x > 40 \/ x < -40
Init == m = Id /\ t = Zero /\ e = 0 /\ ops = <<>>
RV(n) == <<Rnd(-n..n), Rnd(-n..n), Rnd(-n..n)>>
NZ == {-3, -2, -1, 1, 2, 3}
Axes == {<<1, 2>>, <<2, 3>>, <<3, 1>>, <<2, 1>>, <<3, 2>>, <<1, 3>>}
REl(q) == LET c == Rnd(1..24) IN
  CASE c <= 7 -> Trans(RV(6))
    [] c <= 14 -> Turn(Rnd(1..3), Rnd(-3..5))
    [] c <= 16 -> LET s == Rnd(NZ) IN Scale(<<s, s, s>>)
    [] c <= 18 -> Scale(<<Rnd(NZ), Rnd(NZ), Rnd(NZ)>>)
    [] c <= 20 -> LET a == Rnd(Axes) IN Shear(a[1], a[2], Rnd({-2, -1, 1, 2}))
    [] c = 21 /\ Rnd(1..6) = 1 -> Scale(<<Rnd(0..1), Rnd(0..1), 0>>)
    [] OTHER -> IF e = 0 THEN Shrink(Rnd({1, 3, 6, 7})) ELSE Turn(Rnd(1..3), 2)
Corners(lo, hi) == {<<IF a = 0 THEN lo[1] ELSE hi[1], IF b = 0 THEN lo[2] ELSE hi[2],
                      IF c = 0 THEN lo[3] ELSE hi[3]>> : a \in 0..1, b \in 0..1, c \in 0..1}
Low(S, i) == CHOOSE x \in {p[i] : p \in S} : \A p \in S : x <= p[i]
High(S, i) == CHOOSE x \in {p[i] : p \in S} : \A p \in S : p[i] <= x
Bound(S) == <<<<Low(S, 1), Low(S, 2), Low(S, 3)>>, <<High(S, 1), High(S, 2), High(S, 3)>>>>
Derived(mm, tt, pts, v) ==
  [m |-> mm, t |-> tt,
   det |-> Det(mm), adj |-> Adj(mm), adjt |-> MV(Adj(mm), tt),
   p |-> [i \in 1..3 |-> <<pts[i], ImgP(mm, tt, pts[i])>>],
   v |-> <<v, MV(mm, v)>>,
   n |-> <<v, LET s == IF Det(mm) < 0 THEN -1 ELSE 1 IN Mul(s, MV(Tr(Adj(mm)), v))>>,
   box |-> Bound({ImgP(mm, tt, c) : c \in Corners(<<0, 0, 0>>, <<1, 1, 1>>)}),
   ball |-> Bound({ImgP(mm, tt, c) : c \in Corners(<<-1, -1, -1>>, <<1, 1, 1>>)}),
   rows |-> <<Dot(mm[1], mm[1]), Dot(mm[2], mm[2]), Dot(mm[3], mm[3])>>,
   cols |-> <<Dot(Col(mm, 1), Col(mm, 1)), Dot(Col(mm, 2), Col(mm, 2)), Dot(Col(mm, 3), Col(mm, 3))>>,
   mesh |-> <<Bound({ImgP(mm, tt, pts[i]) : i \in 1..3}),
              Bound({ImgP(mm, tt, c) : c \in Corners(Bound({pts[1], pts[2], pts[3]})[1],
                                                     Bound({pts[1], pts[2], pts[3]})[2])})>>]
Step == /\ Len(ops) < NOps
        /\ \E x \in {REl(0)}, left \in {Rnd(BOOLEAN)}, a \in {RV(5)}, b \in {RV(5)}, c \in {RV(5)}, v \in {RV(4)} :
           IF Big /\ x.n \notin {"T", "R"} THEN UNCHANGED <<m, t, e>> /\ ops' = Append(ops, [n |-> "0"])
           ELSE /\ IF left THEN Left(x) ELSE Right(x)
                /\ ops' = Append(ops, [n |-> x.n, p |-> x.p, left |-> left, e |-> e',
                                       d |-> Derived(m', t', <<a, b, c>>, v)])
(* where cameras look from and to *)
Look == /\ Len(ops) < NOps
        /\ \E p \in {RV(5)}, d \in {RV(4)}, u \in {Rnd({<<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>>, <<0, -1, 0>>})} :
           LET l == Cross(u, d) IN
           IF l = Zero THEN UNCHANGED <<m, t, e>> /\ ops' = Append(ops, [n |-> "0"])
           ELSE /\ UNCHANGED <<m, t, e>>
                /\ ops' = Append(ops, [n |-> "L", pos |-> p, eye |-> Add(p, d), up |-> u,
                                       z |-> d, x |-> l, y |-> Cross(d, l)])
Pick == \E c \in {Rnd(1..6)} : IF c = 1 THEN Look ELSE Step
SmallEls == {Trans(<<1, 0, 2>>), Turn(1, 1), Turn(2, 1), Turn(3, 1), Scale(<<2, 1, -1>>),
             Shear(1, 2, 1), Shrink(1)}
Small == /\ Len(ops) < NOps
         /\ \E x \in SmallEls, left \in BOOLEAN :
            /\ IF left THEN Left(x) ELSE Right(x)
            /\ ops' = Append(ops, [x |-> x, left |-> left])
Next == IF Sim THEN Pick ELSE Small
(* ---- checked exhaustively: the product moves points as its factors do ---- *)
Images(x, p) == Add(MV(x.m, p), Mul(P2(x.e), x.t))
RECURSIVE Apply(_, _)
(* the factors in order of application: those on the right, last one first,  *)
(* then those on the left; a point is <<numerators, exponent>>               *)
On(x, q) == <<Add(MV(x.m, q[1]), Mul(P2(q[2]), x.t)), q[2] + x.e>>
Apply(s, q) == IF s = <<>> THEN q ELSE Apply(Tail(s), On(s[1], q))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderOfUse == LET r == SelectSeq(ops, LAMBDA o : ~o.left)
                  l == SelectSeq(ops, LAMBDA o : o.left)
              IN [i \in 1..Len(r) + Len(l) |-> IF i <= Len(r) THEN Rev(r)[i].x ELSE l[i - Len(r)].x]
Compose == \A p \in {<<0, 0, 0>>, <<1, 0, 0>>, <<2, -1, 3>>} : Apply(OrderOfUse, <<p, 0>>) = <<Img(p), e>>
Invert == /\ MM(Adj(m), m) = Diag(<<Det(m), Det(m), Det(m)>>)
          /\ \A p \in {<<1, 0, 0>>, <<2, -1, 3>>} : MV(Adj(m), Sub(Img(p), t)) = Mul(Det(m), p)
(* a normal stays perpendicular to the moved surface *)
Covector == \A n, v \in {<<1, 0, 0>>, <<0, 1, 2>>, <<2, -1, 3>>, <<0, 2, -1>>} :
              Dot(MV(Tr(Adj(m)), n), MV(m, v)) = Det(m)*Dot(n, v)
Emit == (Len(ops) = NOps) => PrintT("@@" \o ToJson(ops))
=============================================================================
