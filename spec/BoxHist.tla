------------------------------ MODULE BoxHist ------------------------------
(* An axis-aligned bounding box: grown by points and boxes, expanded, and    *)
(* asked for containment, measures, order and ray overlap.                   *)
(* hull is what the box must be (a bounding box of everything added so far); *)
(* added remembers the corners of everything that went in.                   *)
EXTENDS Lattice, TLC, Json
CONSTANTS World, NOps, Sim
VARIABLES box, added, ops
vars == <<box, added, ops>>
Rnd(S) == RandomElement(S)
Empty == [e |-> TRUE, lo |-> <<0, 0, 0>>, hi |-> <<0, 0, 0>>]
Bx(lo, hi) == [e |-> FALSE, lo |-> lo, hi |-> hi]
Mn(a, b) == <<Min(a[1], b[1]), Min(a[2], b[2]), Min(a[3], b[3])>>
Mx(a, b) == <<Max(a[1], b[1]), Max(a[2], b[2]), Max(a[3], b[3])>>
Join(b, c) == IF b.e THEN c ELSE IF c.e THEN b ELSE Bx(Mn(b.lo, c.lo), Mx(b.hi, c.hi))
Grow(b, k) == IF b.e THEN b ELSE Bx(<<b.lo[1]-k, b.lo[2]-k, b.lo[3]-k>>, <<b.hi[1]+k, b.hi[2]+k, b.hi[3]+k>>)
In(b, p) == ~b.e /\ \A i \in 1..3 : p[i] >= b.lo[i] /\ p[i] <= b.hi[i]
Ext(b) == Sub(b.hi, b.lo)
Surf(b) == LET x == Ext(b) IN 2*(x[1]*x[2] + x[1]*x[3] + x[2]*x[3])
Vol(b) == LET x == Ext(b) IN x[1]*x[2]*x[3]
Longest(b) == {i \in 1..3 : \A j \in 1..3 : Ext(b)[i] >= Ext(b)[j]}

(* overlap of the line o + t d with the closed box; d has components in      *)
(* 0, +-1, +-2, +-4 and times are in quarters                                *)
T4(p, o, d) == IF d > 0 THEN (4 \div d)*(p - o) ELSE -((4 \div (-d))*(p - o))
LineHit(o, d, b) ==
  LET ax == {i \in 1..3 : d[i] # 0}
      out == \E i \in 1..3 : d[i] = 0 /\ (o[i] < b.lo[i] \/ o[i] > b.hi[i])
      ns == {Min(T4(b.lo[i], o[i], d[i]), T4(b.hi[i], o[i], d[i])) : i \in ax}
      fs == {Max(T4(b.lo[i], o[i], d[i]), T4(b.hi[i], o[i], d[i])) : i \in ax}
      tn == CHOOSE x \in ns : \A y \in ns : y <= x
      tf == CHOOSE x \in fs : \A y \in fs : x <= y
  IN IF b.e \/ out \/ tn > tf THEN <<FALSE, 0, 0>> ELSE <<TRUE, tn, tf>>
(* the same by definition: the times, among the crossings of all the planes, *)
(* at which the line is inside the box                                       *)
At4(o, d, t) == <<4*o[1] + t*d[1], 4*o[2] + t*d[2], 4*o[3] + t*d[3]>>
In4(b, q) == \A i \in 1..3 : q[i] >= 4*b.lo[i] /\ q[i] <= 4*b.hi[i]
Cross4(o, d, b) == {T4(b.lo[i], o[i], d[i]) : i \in {k \in 1..3 : d[k] # 0}}
                   \cup {T4(b.hi[i], o[i], d[i]) : i \in {k \in 1..3 : d[k] # 0}}
ByDef(o, d, b) ==
  LET S == IF b.e THEN {} ELSE {t \in Cross4(o, d, b) : In4(b, At4(o, d, t))}
  IN IF S = {} THEN <<FALSE, 0, 0>>
     ELSE <<TRUE, CHOOSE x \in S : \A y \in S : x <= y, CHOOSE x \in S : \A y \in S : y <= x>>

Init == box = Empty /\ added = {} /\ ops = <<>>
Pts == (0..World) \X (0..World) \X (0..World)
RP(q) == <<Rnd(-World..World), Rnd(-World..World), Rnd(-World..World)>>
RB(q) == LET p == RP(q) IN
         IF Rnd(1..12) = 1 THEN Empty
         ELSE Bx(p, <<p[1] + Rnd(0..World), p[2] + Rnd(0..World), p[3] + Rnd(0..World)>>)
Comps == {0, 0, 1, -1, 2, -2, 4, -4}
RD(q) == <<IF Rnd(1..3) = 1 THEN 0 ELSE Rnd(Comps), IF Rnd(1..3) = 1 THEN 0 ELSE Rnd(Comps), Rnd(Comps)>>
Perm(d, k) == CASE k = 1 -> d [] k = 2 -> <<d[2], d[3], d[1]>> [] OTHER -> <<d[3], d[1], d[2]>>

AddPoint(p, how) == /\ box' = Join(box, Bx(p, p))
                    /\ added' = added \cup {p}
                    /\ ops' = Append(ops, <<"p", how, p, box'>>)
AddBox(b, how) == /\ box' = Join(box, b)
                  /\ added' = IF b.e THEN added ELSE added \cup {b.lo, b.hi}
                  /\ ops' = Append(ops, <<"b", how, b, box'>>)
Expand(k) == /\ box' = Grow(box, k)
             /\ added' = IF box.e THEN {} ELSE {box'.lo, box'.hi}
             /\ ops' = Append(ops, <<"e", k, box'>>)
Reset(b, how) == /\ box' = b
                 /\ added' = IF b.e THEN {} ELSE {b.lo, b.hi}
                 /\ ops' = Append(ops, <<"n", how, b, box'>>)
Query(o) == UNCHANGED <<box, added>> /\ ops' = Append(ops, o)
(* a point of interest: often on the box's own planes *)
Near(b, p, m) == IF b.e THEN p ELSE
   <<CASE m[1] = 1 -> b.lo[1] [] m[1] = 2 -> b.hi[1] [] m[1] = 3 -> b.lo[1] - 1 [] m[1] = 4 -> b.hi[1] + 1
       [] m[1] = 5 -> (b.lo[1] + b.hi[1]) \div 2 [] OTHER -> p[1],
     CASE m[2] = 1 -> b.lo[2] [] m[2] = 2 -> b.hi[2] [] m[2] = 3 -> b.lo[2] - 1 [] m[2] = 4 -> b.hi[2] + 1
       [] m[2] = 5 -> (b.lo[2] + b.hi[2]) \div 2 [] OTHER -> p[2],
     CASE m[3] = 1 -> b.lo[3] [] m[3] = 2 -> b.hi[3] [] m[3] = 3 -> b.lo[3] - 1 [] m[3] = 4 -> b.hi[3] + 1
       [] m[3] = 5 -> (b.lo[3] + b.hi[3]) \div 2 [] OTHER -> p[3]>>
M(q) == <<Rnd(1..7), Rnd(1..7), Rnd(1..7)>>
RandomStep ==
  \E c \in {Rnd(1..40)}, p \in {RP(0)}, b \in {RB(0)}, how \in {Rnd(0..3)}, k \in {Rnd(0..3)},
     m \in {M(0)}, d0 \in {RD(0)}, pm \in {Rnd(1..3)}, nz \in {Rnd(0..7)}, s \in {Rnd(-3..3)} :
   LET d == Perm(d0, pm)
       q == Near(box, p, m)
       o == <<q[1] - s*d[1], q[2] - s*d[2], q[3] - s*d[3]>>
   IN CASE c <= 5 -> AddPoint(p, how)
        [] c <= 9 -> AddBox(b, how)
        [] c = 10 -> Expand(k)
        [] c = 11 -> Reset(b, how)
        [] c = 12 -> Reset(Bx(p, p), how)
        [] c <= 18 -> Query(<<"i", q, In(box, q)>>)
        [] c <= 20 -> IF box.e THEN Query(<<"0">>)
                      ELSE Query(<<"m", Surf(box), Vol(box), Longest(box), <<box.lo[1] + box.hi[1], box.lo[2] + box.hi[2], box.lo[3] + box.hi[3]>>>>)
        [] c <= 22 -> IF box.e \/ b.e THEN Query(<<"0">>) ELSE Query(<<"c", b, Surf(box), Surf(b)>>)
        [] OTHER -> IF d = <<0, 0, 0>> THEN Query(<<"0">>)
                    ELSE Query(<<"r", o, d, nz, LineHit(o, d, box)>>)
SmallStep == \/ \E p \in Pts : AddPoint(p, 0)
             \/ \E k \in 1..1 : Expand(k)
             \/ \E lo, hi \in Pts : (\A i \in 1..3 : lo[i] <= hi[i]) /\ AddBox(Bx(lo, hi), 0)
Next == IF Sim THEN Len(ops) < NOps /\ RandomStep
        ELSE Len(ops) < NOps /\ SmallStep
Spec == Init /\ [][Next]_vars
(* ---- checked exhaustively on small worlds ---- *)
Hull == IF added = {} THEN box.e
        ELSE /\ ~box.e
             /\ \A p \in added : In(box, p)
             /\ \A i \in 1..3 : /\ \E p \in added : p[i] = box.lo[i]
                                /\ \E p \in added : p[i] = box.hi[i]
SmallDirs == {-2, -1, 0, 1, 2} \X {-1, 0, 1} \X {-1, 0, 2}
Slab == \A o \in {<<x, y, z>> : x \in -1..World+1, y \in {-1, 0, 1}, z \in {0, 1, World + 1}}, d \in SmallDirs \ {<<0, 0, 0>>} :
          LineHit(o, d, box) = ByDef(o, d, box)
NoOps == <<box, added>>
Emit == (Len(ops) = NOps) => PrintT("@@" \o ToJson(ops))
=============================================================================
