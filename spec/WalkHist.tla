------------------------------ MODULE WalkHist ------------------------------
(* Histories of a sampler: batches mixed with numbers drawn in between.      *)
EXTENDS Walk, Sequences, TLC, Json
CONSTANTS Square, MaxSpp, Far
VARIABLES tile, left, hist, todo
vars == <<tile, left, hist, todo>>
Rnd(S) == RandomElement(S)
Init == tile = <<>> /\ left = {} /\ hist = <<>> /\ todo = 1
Setup ==
  /\ tile = <<>>
  /\ \E x \in {Rnd(0..(IF Rnd(0..(2 + 0 * todo)) = 0 THEN Far ELSE 40 + 0 * todo))}, y \in {Rnd(0..(IF Rnd(0..(2 + 0 * todo)) = 0 THEN Far ELSE 40 + 0 * todo))},
        w \in {Rnd(1..(9 + 0 * todo))}, h \in {Rnd(1..(9 + 0 * todo))}, k \in {Rnd(1..(3 + 0 * todo))},
        n \in {IF Square THEN LET r == Rnd(1..(MaxSpp + 0 * todo)) IN r * r ELSE Rnd(1..(MaxSpp * MaxSpp + 0 * todo))} :
     /\ tile' = [sx |-> x, ex |-> x + w, sy |-> y, ey |-> y + h, spp |-> n, cols |-> Cols(n), rows |-> Rows(n), kind |-> k]
     /\ left' = Pixels(tile')
     /\ todo' = w * h + Rnd(1..(12 + 0 * todo))
  /\ UNCHANGED hist
(* which pixel a batch is for is the sampler's choice *)
Get == /\ todo > 0 /\ tile # <<>>
       /\ IF Exhausted(left) THEN left' = left /\ hist' = Append(hist, [o |-> "g", ok |-> FALSE])
          ELSE /\ \E p \in {CHOOSE q \in left : TRUE} : left' = AfterBatch(left, p)
               /\ hist' = Append(hist, [o |-> "g", ok |-> TRUE])
       /\ todo' = todo - 1 /\ UNCHANGED tile
Draw == /\ todo > 0 /\ tile # <<>> /\ ((IF Len(hist) = 0 THEN TRUE ELSE hist[Len(hist)].o # "n") = TRUE)
        /\ \E n \in {Rnd(1..(7 + 0 * todo))} : hist' = Append(hist, [o |-> "n", n |-> n])
        /\ UNCHANGED <<tile, left, todo>>
Next == Setup \/ Get \/ Draw
Emit == (todo = 0 /\ left = {}) => PrintT("@@" \o ToJson([t |-> tile, h |-> hist]))
=============================================================================
