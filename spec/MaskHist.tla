------------------------------ MODULE MaskHist ------------------------------
(* Random stacks and histories of queries on them.                           *)
EXTENDS Mask, TLC, Json
CONSTANTS NQ, NA, Masked, Kinds
VARIABLES scene, hist, todo
vars == <<scene, hist, todo>>
Rnd(S) == RandomElement(S)
Init == scene = <<>> /\ hist = <<>> /\ todo = 0
Values == {0, 60, 127, 128, 200, 255}
Tex(m, z) == [i \in 1..m |-> [j \in 1..m |-> [c \in 1..4 |-> Rnd({v \in Values : v + z >= 0})]]]
Build == /\ Len(scene) < NA /\ hist = <<>> /\ todo = 0
         /\ \E k \in {Rnd(Kinds)}, x \in {4 * Rnd(-2..1)}, y \in {4 * Rnd(-2..1)}, z \in {Rnd(-12..12)},
               w \in {Rnd({4, 8})}, m \in {Rnd({1, 2, 4})}, f \in {Rnd(0..3)}, ch \in {Rnd(1..4)},
               inv \in {Rnd(BOOLEAN)}, on \in {Rnd(1..4)}, h \in {Rnd(1..5)}, flt \in {Rnd(1..3)}, lt \in {Rnd(BOOLEAN)} :
            LET mm == IF k = "box" THEN 1 ELSE m IN
            scene' = Append(scene, [k |-> k, x |-> x, y |-> y, z |-> z,
              w |-> w, m |-> mm, f |-> f, ch |-> ch, inv |-> inv, h |-> h, flt |-> flt, lt |-> lt,
              tex |-> IF Masked /\ on > 1 THEN Tex(mm, z + 100) ELSE <<>>])
         /\ UNCHANGED <<hist, todo>>
Start == Len(scene) = NA /\ hist = <<>> /\ todo = 0 /\ todo' = NQ /\ UNCHANGED <<scene, hist>>
Log(r) == hist' = Append(hist, r)
Query == /\ todo > 0 /\ todo' = todo - 1 /\ UNCHANGED scene
         /\ \E x \in {4 * Rnd(-3..2) + 1}, y \in {4 * Rnd(-3..2) + 2}, z \in {1000 * Rnd(-16..15) + 500},
              dir \in {Rnd({-1, 1})}, o \in {Rnd(1..3)}, d \in {1000 * Rnd(0..24) + 250},
              slot \in {Rnd({0, 0, 1, 2, 3, 4, 5, 6, 200})} :
            LET S == Ahead(scene, x, y, z, dir)
                C == Closest(S, z, dir)
                D(p) == (p.z - z) * dir
            IN CASE o = 1 -> Log([o |-> "i", x |-> x, y |-> y, z |-> z, dir |-> dir, hit |-> C])
                 [] o = 3 /\ S # {} ->
                    \* just up to a visible point: a light that sits there
                    \E p \in {Rnd(S)} :
                    Log([o |-> "l", x |-> x, y |-> y, z |-> z, dir |-> dir, slot |-> slot, to |-> p,
                         occ |-> \E q \in S : D(q) < D(p) - 20,
                         amb |-> \E q \in S : D(q) < D(p) /\ D(q) >= D(p) - 20])
                 [] OTHER ->
                    Log([o |-> "o", x |-> x, y |-> y, z |-> z, dir |-> dir, slot |-> slot, d |-> d,
                         occ |-> \E q \in S : D(q) < d])
Next == Build \/ Start \/ Query
Emit == (todo = 0 /\ hist # <<>>) => PrintT("@@" \o ToJson([scene |-> scene, hist |-> hist]))
=============================================================================
