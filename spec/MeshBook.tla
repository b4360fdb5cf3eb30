------------------------------ MODULE MeshBook ------------------------------
(* A mesh as a container: triangles go in one by one, up to a maximum; after *)
(* it is finalised it answers with its bounding box, area, number of faces,  *)
(* the material of any face and points of its surface.  Lengths are in half  *)
(* units.  Triangles are right-angled, each in its own cell of a grid, so    *)
(* areas are integers and every point of the surface tells its triangle.     *)
EXTENDS Lattice, TLC, Json
CONSTANTS Max_, NTris, Cells
VARIABLES size, axis, target, tris, refused, ops, phase
vars == <<size, axis, target, tris, refused, ops, phase>>
Rnd(S) == RandomElement(S)
V(k, c, x, y) == CASE k = 1 -> <<c, x, y>> [] k = 2 -> <<y, c, x>> [] OTHER -> <<x, y, c>>
Cell(c) == <<8*(c % 16), 8*(c \div 16)>>
(* w, h even; o: orientation; r: which corner comes first *)
Tri(k, c, z, w, h, o, r) ==
  LET x == Cell(c)[1]
      y == Cell(c)[2]
      p == V(k, z, x, y)
      q == V(k, z, x + w, y)
      s == V(k, z, x, y + h)
      t == IF o = 1 THEN <<p, q, s>> ELSE <<p, s, q>>
  IN [v |-> <<t[1 + (r % 3)], t[1 + ((r+1) % 3)], t[1 + ((r+2) % 3)]>>,
      cell |-> c, wh |-> w*h, o |-> o,
      in |-> V(k, z, x + 0, y + 0)]        \* a corner; the inside is at +w/4, +h/4
Init == size = 0 /\ axis = 0 /\ target = 0 /\ tris = <<>> /\ refused = 0 /\ ops = <<>> /\ phase = "new"
Start == /\ phase = "new"
         /\ \E n \in {Rnd(NTris)}, k \in {Rnd(1..3)}, q \in {Rnd(1..4)} :
            /\ target' = n /\ axis' = k
            /\ size' = CASE q = 1 -> 1 [] q = 2 -> n [] q = 3 -> 2*n + 3 [] OTHER -> 1 + n \div 3
         /\ phase' = "add"
         /\ UNCHANGED <<tris, refused, ops>>
(* one add: refused beyond the maximum *)
Add == /\ phase = "add" /\ Len(ops) < target
       /\ \E w \in {2*Rnd(1..3)}, h \in {2*Rnd(1..3)}, o \in {Rnd(1..2)}, r \in {Rnd(0..2)}, z \in {Rnd(0..3)} :
          LET t == Tri(axis, (Len(ops)*7 + 3) % Cells, z, w, h, o, r) IN
          /\ ops' = Append(ops, t.v)
          /\ IF Len(tris) < Max_ THEN tris' = Append(tris, t) /\ UNCHANGED refused
             ELSE refused' = refused + 1 /\ UNCHANGED tris
       /\ UNCHANGED <<size, axis, target, phase>>
Finish == /\ phase = "add" /\ Len(ops) = target
          /\ phase' = "done"
          /\ UNCHANGED <<size, axis, target, tris, refused, ops>>
Next == Start \/ Add \/ Finish
Pts == UNION {{tris[i].v[1], tris[i].v[2], tris[i].v[3]} : i \in 1..Len(tris)}
Low(i) == CHOOSE x \in {p[i] : p \in Pts} : \A p \in Pts : x <= p[i]
High(i) == CHOOSE x \in {p[i] : p \in Pts} : \A p \in Pts : p[i] <= x
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE tris[n].wh + Total(n - 1)
(* doubled area by the vertices agrees with the legs *)
AreaOk == \A i \in 1..Len(tris) :
   LET c == Cross(Sub(tris[i].v[2], tris[i].v[1]), Sub(tris[i].v[3], tris[i].v[1]))
   IN Dot(c, c) = tris[i].wh*tris[i].wh
Kept == Len(tris) <= Max_ /\ (phase = "done" => Len(tris) + refused = target)
Distinct == \A i, j \in 1..Len(tris) : i # j => tris[i].cell # tris[j].cell
Mats(s) == [i \in 1..Len(tris) |-> Rnd(0..s-1)]
Emit == (phase = "done") =>
  LET nm == Rnd({1, 2, 5, 255}) m2 == Rnd({1, 3}) IN
  PrintT("@@" \o ToJson([size |-> size, axis |-> axis, ops |-> ops, n |-> Len(tris),
     refused |-> refused, tris |-> tris, total |-> Total(Len(tris)),
     lo |-> <<Low(1), Low(2), Low(3)>>, hi |-> <<High(1), High(2), High(3)>>,
     mats |-> <<[n |-> nm, idx |-> Mats(nm)], [n |-> m2, idx |-> Mats(m2)]>>,
     scale |-> <<Rnd(1..3), Rnd(1..3), Rnd(1..3)>>, turn |-> <<Rnd(1..3), Rnd(0..3)>>,
     move |-> <<Rnd(-3..3), Rnd(-3..3), Rnd(-3..3)>>]))
=============================================================================
