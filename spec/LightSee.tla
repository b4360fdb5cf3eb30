------------------------------ MODULE LightSee ------------------------------
(* An emitting object, opaque walls across the z axis and points the light   *)
(* is sampled from.  Depths in quarters: walls at odd multiples of 2, points *)
(* at odd ones, surfaces at multiples of 4: nothing ever coincides.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NP
VARIABLES light, walls, hist, todo
vars == <<light, walls, hist, todo>>
Rnd(S) == RandomElement(S)
Low(l) == IF l.k = "sphere" THEN 4 * (l.z - l.w) ELSE 4 * l.z
High(l) == IF l.k = "sheet" THEN 4 * l.z ELSE IF l.k = "sphere" THEN 4 * (l.z + l.w) ELSE 4 * (l.z + l.h)
Side(l) == l.w * l.m
Init == light = <<>> /\ walls = {} /\ hist = <<>> /\ todo = 0
Visible(l, i, j) == IF l.tex = <<>> THEN TRUE ELSE (l.tex[i+1][j+1][l.ch] >= 128) # l.inv
Tex(m, z) == [i \in 1..m |-> [j \in 1..m |-> [c \in 1..4 |-> Rnd({v \in {0, 127, 128, 255} : v + z >= 0})]]]
Setup ==
  /\ todo = 0 /\ hist = <<>> /\ todo' = NP
  /\ \E k \in {Rnd({"sheet", "sphere", "box"})}, x \in {Rnd(-6..6)}, y \in {Rnd(-6..6)}, z \in {Rnd(-5..5)},
        w \in {Rnd({1, 2, 3, 5})}, m \in {Rnd({1, 2, 4})}, f \in {Rnd(0..3)}, ch \in {Rnd(1..4)},
        inv \in {Rnd(BOOLEAN)}, on \in {Rnd(1..3)}, h \in {Rnd(1..4)} :
     LET mm == IF k = "box" THEN 1 ELSE m
         l == [k |-> k, x |-> x, y |-> y, z |-> z, w |-> w, m |-> mm, f |-> f, ch |-> ch, inv |-> inv,
               h |-> h, flt |-> 1, tex |-> IF on = 1 /\ k = "sheet" THEN Tex(mm, z + 100) ELSE <<>>]
     IN /\ light' = l
        /\ \E n \in {Rnd(0..3)} : \E s \in {[i \in 1..n |-> 4 * Rnd(-14..(13 + 0 * i)) + 2]} :
           walls' = {s[i] : i \in {i \in 1..n : s[i] < Low(l) \/ s[i] > High(l)}}
  /\ UNCHANGED hist
Between(z, l) == {v \in walls : (z < v /\ v < Low(l)) \/ (High(l) < v /\ v < z)}
(* quarters; a point is inside a closed light or sees its outer side *)
Inside(l, p) ==
  CASE l.k = "sheet" -> FALSE
    [] l.k = "sphere" -> (p[1] - 4*l.x)*(p[1] - 4*l.x) + (p[2] - 4*l.y)*(p[2] - 4*l.y)
                          + (p[3] - 4*l.z)*(p[3] - 4*l.z) < 16 * l.w * l.w
    [] OTHER -> /\ p[1] > 4*l.x /\ p[1] < 4*(l.x + l.w) /\ p[2] > 4*l.y /\ p[2] < 4*(l.y + l.w)
                /\ p[3] > 4*l.z /\ p[3] < 4*(l.z + l.h)
Faces(l, p) == IF l.k = "sheet" THEN p[3] > 4 * l.z ELSE ~Inside(l, p)
(* closer to the surface than intersections are told apart *)
Touching(l, p) ==
  l.k = "sphere" /\ LET q == (p[1] - 4*l.x)*(p[1] - 4*l.x) + (p[2] - 4*l.y)*(p[2] - 4*l.y)
                            + (p[3] - 4*l.z)*(p[3] - 4*l.z) - 16 * l.w * l.w IN q < 8*l.w + 1 /\ q > -8*l.w - 1
Texels(l) == l.m * l.m
Look ==
  /\ todo > 0 /\ todo' = todo - 1 /\ UNCHANGED <<light, walls>>
  /\ \E near \in {Rnd(BOOLEAN)} : \E x \in {2 * Rnd(-40..40) + 1}, y \in {2 * Rnd(-40..40) + 1},
        z \in {2 * Rnd(IF near THEN (4*light.z - 12) \div 2..(4*light.z + 12) \div 2 ELSE -32..31) + 1},
        cx \in {2 * Rnd(-4..4) + 1 + 4 * light.x}, cy \in {2 * Rnd(-4..4) + 1 + 4 * light.y},
        slot \in {Rnd({0, 0, 1, 2, 7})} :
     LET p == IF near THEN <<cx, cy, z>> ELSE <<x, y, z>> IN
     hist' = Append(hist, [p |-> p, amb |-> Touching(light, p), slot |-> slot, lit |-> Faces(light, p), occ |-> Between(z, light) # {},
       see |-> IF light.tex = <<>> THEN 16 ELSE
               (16 * Cardinality({t \in (0..light.m-1) \X (0..light.m-1) : Visible(light, t[1], t[2])}))
                \div Texels(light)])
Next == Setup \/ Look
(* a wall only matters to points on the other side of it *)
Sound == \A i \in 1..Len(hist) : walls = {} => ~hist[i].occ
Emit == (todo = 0 /\ hist # <<>>) =>
   PrintT("@@" \o ToJson([light |-> light, walls |-> walls, hist |-> hist]))
=============================================================================
