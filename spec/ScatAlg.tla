--------------------------------- MODULE ScatAlg ---------------------------------
(* Scatter for every pair of a few directions and all sequences of steps.       *)
EXTENDS Scatter, FiniteSets, TLC
CONSTANTS Steps, Wide      \* Wide: also turns that are not quarters
VARIABLES s, first, left
Dirs == {<<0, 0, 1, 1>>, <<1, 2, 2, 3>>, <<-2, 1, 2, 3>>, <<2, -3, 6, 7>>, <<4, 0, -3, 5>>, <<-1, -4, -8, 9>>, <<0, 3, 4, 5>>}
Init == \E a \in Dirs, b \in Dirs : s = Start(a, b) /\ first = Start(a, b) /\ left = Steps
Next == left > 0 /\ left' = left - 1 /\ UNCHANGED first
        /\ \/ \E t \in (IF Wide THEN Turns ELSE Square) : s' = StepTurn(s, t)
           \/ s' = StepMirror(s) \/ s' = StepCross(s) \/ s' = StepFlip(s) \/ s' = StepSwap(s)
Lengths == Whole(s)
Kept == Angles(s) = Angles(first)
Axes == ~Wide => Marks(s) = Marks(first)
Medium == Above(s) = (IF s.swapped THEN Above([first EXCEPT !.wo = first.wi]) ELSE Above(first))
(* refraction can be walked back, with the same angles; total reflection from one side only *)
Ratios == {<<3, 4>>, <<1, 1>>, <<2, 3>>, <<4, 3>>}
Back == \A r \in Ratios : LET d == s.wo t == Sin2(d, r[1], r[2])
        IN /\ (d[3] > 0 /\ r[1] <= r[2] => ~Total(d, r[1], r[2]) \/ d[3] = 0)
           /\ (d[3] < 0 /\ r[1] >= r[2] => ~Total(d, r[1], r[2]) \/ d[3] = 0)
           /\ (r[1] = r[2] => t = Frac(d[4] * d[4] - d[3] * d[3], d[4] * d[4]))
           /\ (~Total(d, r[1], r[2]) => Through(d, r[1], r[2])[3][1] > 0)
=============================================================================
