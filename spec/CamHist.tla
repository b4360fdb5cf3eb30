------------------------------ MODULE CamHist -------------------------------
(* Cameras and the samples they are asked for.                               *)
EXTENDS Camera, TLC, Json
CONSTANTS Kind, MaxRes
VARIABLES c, hist, todo
vars == <<c, hist, todo>>
Rnd(S) == RandomElement(S)
Init == c = <<>> /\ hist = <<>> /\ todo = 9
Setup ==
  /\ c = <<>>
  /\ \E a \in {Rnd(0..(3 + 0 * todo))}, b \in {Rnd(-3..(3 + 0 * todo))}, d \in {Rnd(-3..(3 + 0 * todo))}, e \in {Rnd(-2..(3 + 0 * todo))},
        w \in {Rnd(1..(IF Rnd(0..(1 + 0 * todo)) = 0 THEN MaxRes ELSE 12))}, h \in {Rnd(1..(IF Rnd(0..(1 + 0 * todo)) = 0 THEN MaxRes ELSE 12))},
        same \in {Rnd(0..(3 + 0 * todo))}, p \in {Rnd(1..(6 + 0 * todo))}, q \in {Rnd(1..(6 + 0 * todo))},
        px \in {Rnd(-30..(30 + 0 * todo))}, py \in {Rnd(-30..(30 + 0 * todo))}, pz \in {Rnd(-30..(30 + 0 * todo))},
        dist \in {Rnd(1..(5 + 0 * todo))}, tilt \in {Rnd(-2..(2 + 0 * todo))} :
     LET g == IF <<a, b, d, e>> = <<0, 0, 0, 0>> THEN Frame(1, 0, 0, 0) ELSE Frame(a, b, d, e)
         hh == IF same = 0 THEN w ELSE h
     IN c' = [kind |-> Kind, r |-> g.r, u |-> g.u, f |-> g.f, n |-> g.n, w |-> w, h |-> hh, p |-> p, q |-> q,
              pos |-> <<px, py, pz>>, target |-> Plus(<<px, py, pz>>, Vec(dist, g.f)),
              (* the upward direction given need not be square to the view *)
              up |-> Plus(Vec(3, g.u), Vec(tilt, g.f))]
  /\ UNCHANGED <<hist, todo>>
Place(n, k) == CASE k = 0 -> 0 [] k = 1 -> 8 * n [] k = 2 -> 4 * n [] k = 3 -> 8 * (n - 1) + 4
                 [] OTHER -> Rnd(0..(8 * n))
Ask == /\ c # <<>> /\ todo > 0
       /\ \E i \in {Rnd(0..(9 + 0 * todo))}, j \in {Rnd(0..(9 + 0 * todo))} :
          \E x \in {Place(c.w, i)}, y \in {Place(c.h, j)} :
          hist' = Append(hist, [x |-> x, y |-> y, want |-> Rays(c, x, y)])
       /\ todo' = todo - 1 /\ UNCHANGED c
Next == Setup \/ Ask
Emit == todo = 0 => PrintT("@@" \o ToJson([c |-> c, h |-> hist]))
=============================================================================
