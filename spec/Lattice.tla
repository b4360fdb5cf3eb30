------------------------------ MODULE Lattice ------------------------------
(* Exact ray intersection on an integer lattice: axis-aligned boxes and      *)
(* triangles with even coordinates, integer ray origins and small integer    *)
(* directions.  Distances are rationals <<num, den>>, den > 0.  A surface at *)
(* distance 0 is the one the ray leaves: not a hit.                          *)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Sub(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
Less(p, q) == p[1]*q[2] < q[1]*p[2]
Leq(p, q) == p[1]*q[2] <= q[1]*p[2]
Same(p, q) == p[1]*q[2] = q[1]*p[2]

None == [k |-> "none", t |-> <<0, 1>>]
Proper(n, d) == [k |-> "hit", t |-> <<n, d>>]
Touch(n, d) == [k |-> "touch", t |-> <<n, d>>]   \* on an edge: either answer

(* b = [kind |-> "box", lo, hi]; direction components divide 6 *)
Near6(o, d, lo, hi) == IF d > 0 THEN (6 \div d)*(lo - o) ELSE -((6 \div (-d))*(hi - o))
Far6(o, d, lo, hi) == IF d > 0 THEN (6 \div d)*(hi - o) ELSE -((6 \div (-d))*(lo - o))
BoxHit(o, d, b) ==
  LET ax == {i \in 1..3 : d[i] # 0}
      out == \E i \in 1..3 : d[i] = 0 /\ (o[i] < b.lo[i] \/ o[i] > b.hi[i])
      edge == \E i \in 1..3 : d[i] = 0 /\ (o[i] = b.lo[i] \/ o[i] = b.hi[i])
      ns == {Near6(o[i], d[i], b.lo[i], b.hi[i]) : i \in ax}
      fs == {Far6(o[i], d[i], b.lo[i], b.hi[i]) : i \in ax}
      tn == CHOOSE x \in ns : \A y \in ns : y <= x
      tf == CHOOSE x \in fs : \A y \in fs : x <= y
  IN IF out \/ tn > tf \/ tf < 0 THEN None
     ELSE IF tn = tf \/ edge THEN Touch(IF tn > 0 THEN tn ELSE tf, 6)
     ELSE IF tf = 0 THEN None      \* leaving the surface it starts from
     ELSE Proper(IF tn > 0 THEN tn ELSE tf, 6)

(* t = [kind |-> "tri", a, b, c] *)
TriHit(o, d, t) ==
  LET ba == Sub(t.b, t.a)
      ca == Sub(t.c, t.a)
      pv == Cross(d, ca)
      det0 == Dot(pv, ba)
      tv == Sub(o, t.a)
      qv == Cross(tv, ba)
      s == IF det0 < 0 THEN -1 ELSE 1
      det == s*det0
      u == s*Dot(pv, tv)
      v == s*Dot(d, qv)
      n == s*Dot(ca, qv)
  IN IF det = 0
     THEN IF Dot(Cross(ba, ca), tv) = 0 THEN Touch(0, 1) ELSE None
     ELSE IF u < 0 \/ v < 0 \/ u + v > det \/ n <= 0 THEN None
     ELSE IF u = 0 \/ v = 0 \/ u + v = det \/ 20*n < det THEN Touch(n, det)
     ELSE Proper(n, det)

Hit(o, d, s) == IF s.kind = "box" THEN BoxHit(o, d, s) ELSE TriHit(o, d, s)

(* closest proper hit among the shapes with an index in I, who achieves it,  *)
(* and the touched shapes that a computation with rounding may report first  *)
Closest(o, d, shapes, I) ==
  LET h == [i \in I |-> Hit(o, d, shapes[i])]
      P == {i \in I : h[i].k = "hit"}
      T == {i \in I : h[i].k = "touch"}
      best == CHOOSE i \in P : \A j \in P : Leq(h[i].t, h[j].t)
  IN IF P = {}
     THEN [hit |-> FALSE, t |-> <<0, 1>>, who |-> <<>>,
           touch |-> {<<i, h[i].t[1], h[i].t[2]>> : i \in T}]
     ELSE [hit |-> TRUE, t |-> h[best].t,
           who |-> {i \in P : Same(h[i].t, h[best].t)},
           touch |-> {<<i, h[i].t[1], h[i].t[2]>> :
                      i \in {j \in T : Leq(h[j].t, h[best].t)}}]
=============================================================================
