-------------------------------- MODULE Mask --------------------------------
(* Stacks of masked surfaces seen along the z axis.  Lengths are in units;   *)
(* depths in thousandths.  Rays pass at x = 1, y = 2 modulo 4, surfaces      *)
(* start at multiples of 4: no ray meets an edge or the border of a texel.   *)
EXTENDS Integers, Sequences, FiniteSets
(* asset: [k, x, y, z, w (texel width / radius), m (texels per side), f      *)
(*  (flips), ch, inv, tex (side x side x 4 or <<>> when not masked), h]      *)
Sqrt == [q \in 0..64 |-> CHOOSE s \in 0..8000 : s*s <= q*1000000 /\ (s+1)*(s+1) > q*1000000]
Visible(a, i, j) == IF a.tex = <<>> THEN TRUE ELSE (a.tex[i+1][j+1][a.ch] >= 128) # a.inv
Side(a) == a.w * a.m           \* of a sheet or box
Inside(a, x, y) == x > a.x /\ x < a.x + Side(a) /\ y > a.y /\ y < a.y + Side(a)
Flip(i, n, yes) == IF yes THEN n - 1 - i ELSE i
SheetTexel(a, x, y) ==
  <<Flip((x - a.x) \div a.w, a.m, a.f % 2 = 1), Flip((y - a.y) \div a.w, a.m, a.f \div 2 = 1)>>
(* longitude from the positive x axis, latitude from the south pole *)
SphereTexel(a, x, y, q, up) ==
  LET dx == x - a.x  dy == y - a.y
      lon == IF dy > 0 THEN IF dx > 0 THEN 0 ELSE 1 ELSE IF dx < 0 THEN 2 ELSE 3
      polar == 2 * q > a.w * a.w
      lat == IF up THEN IF polar THEN 3 ELSE 2 ELSE IF polar THEN 0 ELSE 1
  IN IF a.m = 1 THEN <<0, 0>> ELSE IF a.m = 2 THEN <<lon \div 2, lat \div 2>> ELSE <<lon, lat>>
Hit(n, c, s, q) == [a |-> n, c |-> c, s |-> s, q |-> q, z |-> 1000 * c + s * Sqrt[q]]
(* every point of asset a (number n) on the line (x, y) that is not cut out  *)
Points(n, a, x, y) ==
  CASE a.k = "sheet" ->
        IF Inside(a, x, y) /\ LET t == SheetTexel(a, x, y) IN Visible(a, t[1], t[2])
        THEN {Hit(n, a.z, 0, 0)} ELSE {}
    [] a.k = "box" ->
        IF Inside(a, x, y) /\ Visible(a, 0, 0) THEN {Hit(n, a.z, 0, 0), Hit(n, a.z + a.h, 0, 0)} ELSE {}
    [] a.k = "sphere" ->
        LET q == a.w * a.w - (x - a.x) * (x - a.x) - (y - a.y) * (y - a.y) IN
        IF q <= 0 THEN {}
        ELSE {Hit(n, a.z, s, q) : s \in {s \in {-1, 1} :
                LET t == SphereTexel(a, x, y, q, s = 1) IN Visible(a, t[1], t[2])}}
Line(scene, x, y) == UNION {Points(n, scene[n], x, y) : n \in 1..Len(scene)}
Ahead(scene, x, y, z, dir) == {p \in Line(scene, x, y) : (p.z - z) * dir > 0}
Closest(S, z, dir) == {p \in S : \A q \in S : (p.z - z) * dir <= (q.z - z) * dir + 5}
=============================================================================
