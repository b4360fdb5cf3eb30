------------------------------ MODULE MeshHist ------------------------------
(* A mesh as a ray sees it: triangles are added in some order, the mesh is   *)
(* finalised, and rays - with or without a distance already found - report   *)
(* the closest triangle.                                                     *)
EXTENDS Lattice, TLC, Json
CONSTANTS NTris, NRays, World, Styles
VARIABLES tris, rays, style
vars == <<tris, rays, style>>
Rnd(S) == RandomElement(S)
Init == tris = <<>> /\ rays = <<>> /\ style = ""
RC(n) == 2*Rnd(0..n)
V(k, c, x, y) == CASE k = 1 -> <<c, x, y>> [] k = 2 -> <<x, c, y>> [] OTHER -> <<x, y, c>>
Around(p, m) == <<p[1] + RC(m) - RC(m), p[2] + RC(m) - RC(m), p[3] + RC(m) - RC(m)>>
Flat(k, c, x, y, w, h) == [kind |-> "tri", a |-> V(k, c, x, y), b |-> V(k, c, x + w, y), c |-> V(k, c, x, y + h)]
One(s, i, n) ==
  CASE s = "sheet" ->           \* coplanar, in a row: zero thickness
         Flat(3, 4, 4*(i % 8), 4*(i \div 8), 4, 4)
    [] s = "stack" ->           \* same footprint, many heights, any order
         Flat(2, RC(World), 0, 0, 2*World, 2*World)
    [] s = "line" ->            \* all centres on one axis
         Flat(1, 2*((i*7) % n), 2, 2, 4, 2)
    [] s = "same" ->            \* a few places only
         Flat(Rnd(1..3), 2*Rnd(1..2), 0, 0, 8, 8)
    [] s = "cluster" ->
         LET p == <<(World \div 2)*2*Rnd(0..2), (World \div 2)*2*Rnd(0..2), (World \div 2)*2*Rnd(0..2)>>
         IN [kind |-> "tri", a |-> Around(p, 1), b |-> Around(p, 2), c |-> Around(p, 2)]
    [] s = "big" -> [kind |-> "tri", a |-> <<RC(World), RC(World), RC(World)>>,
                     b |-> <<RC(World), RC(World), RC(World)>>,
                     c |-> <<RC(World), RC(World), RC(World)>>]
    [] s = "fan" -> [kind |-> "tri", a |-> <<World, World, World>>,
                     b |-> Around(<<World, World, World>>, 4),
                     c |-> Around(<<World, World, World>>, 4)]
    [] OTHER -> LET p == <<RC(World), RC(World), RC(World)>> IN
                [kind |-> "tri", a |-> p, b |-> Around(p, 3), c |-> Around(p, 3)]
Ok(t) == Cross(Sub(t.b, t.a), Sub(t.c, t.a)) # <<0, 0, 0>>
Fix(t) == IF Ok(t) THEN t ELSE [t EXCEPT !.b = <<@[1], t.a[2] + 2, t.a[3] + 4>>,
                                        !.c = <<t.a[1] + 2, @[2], t.a[3] + 2>>]
Setup == /\ style = ""
         /\ \E s \in {Rnd(Styles)}, n \in {Rnd(NTris)} :
            /\ style' = s
            /\ tris' = SelectSeq([i \in 1..n |-> Fix(One(s, i, n))], Ok)
         /\ UNCHANGED rays
Co(n) == IF Rnd(1..4) = 1 THEN 2*Rnd(0..n) ELSE 2*Rnd(0..n) + 1
Dir(k) == <<Rnd(-3..3), Rnd(-3..3), Rnd(-3..3)>>
(* aim at the inside of a triangle, half of the times *)
Aim(t, d) == LET g == <<t.a[1] + t.b[1] + 2*t.c[1], t.a[2] + t.b[2] + 2*t.c[2], t.a[3] + t.b[3] + 2*t.c[3]>>
             IN <<g[1] \div 4, g[2] \div 4, g[3] \div 4>>
Limits == {<<1000, 1>>, <<5, 2>>, <<9, 2>>, <<1, 1>>}
Shoot == /\ style # "" /\ tris # <<>> /\ Len(rays) < NRays
         /\ \E d \in {Dir(0)}, p \in {<<Co(World), Co(World), Co(World)>>}, k \in {2*Rnd(0..4)},
              a \in {Rnd(BOOLEAN)}, i \in {Rnd(1..Len(tris))}, q \in {Rnd(1..8)} :
            LET lim == IF q > 3 THEN <<1000, 1>> ELSE CASE q = 1 -> <<5, 2>> [] q = 2 -> <<9, 2>> [] OTHER -> <<1, 1>>
                b == IF a THEN Aim(tris[i], d) ELSE p
                o == <<b[1] - k*d[1], b[2] - k*d[2], b[3] - k*d[3]>>
                h == [j \in 1..Len(tris) |-> TriHit(o, d, tris[j])]
                near == {j \in 1..Len(tris) : h[j].k # "none" /\ ~Less(lim, h[j].t)}
                c == Closest(o, d, tris, {j \in near : ~Same(h[j].t, lim)})
                eq == {<<j, h[j].t[1], h[j].t[2]>> : j \in {x \in near : Same(h[x].t, lim)}}
            IN IF d = <<0, 0, 0>> THEN UNCHANGED rays
               ELSE rays' = Append(rays, <<o, d, lim, c.hit, c.t, c.who, c.touch \cup eq>>)
         /\ UNCHANGED <<tris, style>>
Next == Setup \/ Shoot
Emit == (Len(rays) = NRays) => PrintT("@@" \o ToJson([style |-> style, tris |-> tris, rays |-> rays]))
=============================================================================
