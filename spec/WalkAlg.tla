------------------------------ MODULE WalkAlg -------------------------------
(* The raster walk (a cursor that wraps at the end of a row) refines Walk    *)
(* for every tile: every pixel once, never a pixel outside, exhausted for    *)
(* ever after the last.                                                      *)
EXTENDS Walk, TLC
CONSTANTS Max_
VARIABLES tile, cx, cy, left, dry
vars == <<tile, cx, cy, left, dry>>
Init == /\ \E sx \in 0..Max_, sy \in 0..Max_ : \E w \in 1..Max_, h \in 1..Max_ :
             tile = [sx |-> sx, ex |-> sx + w, sy |-> sy, ey |-> sy + h]
        /\ cx = tile.sx /\ cy = tile.sy /\ left = Pixels(tile) /\ dry = 0
Batch == /\ cy # tile.ey
         /\ left' = AfterBatch(left, <<cx, cy>>)
         /\ cx' = IF cx + 1 = tile.ex THEN tile.sx ELSE cx + 1
         /\ cy' = IF cx + 1 = tile.ex THEN cy + 1 ELSE cy
         /\ UNCHANGED <<tile, dry>>
Refuse == /\ cy = tile.ey /\ dry < 3 /\ dry' = dry + 1 /\ UNCHANGED <<tile, cx, cy, left>>
Next == Batch \/ Refuse
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* a batch is given for a pixel still to visit, and refused when none is left *)
Refines == (cy # tile.ey) <=> <<cx, cy>> \in MayVisit(tile, left)
Ends == (cy = tile.ey) <=> Exhausted(left)
GridOk == \A n \in 1..40 : Cols(n) * Rows(n) = n /\ (\E k \in 1..7 : k * k = n => Cols(n) = Rows(n))
          /\ Cardinality(Cells(n)) = n
Done == <>[](dry = 3 /\ left = {})
=============================================================================
