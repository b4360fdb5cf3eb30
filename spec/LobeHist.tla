------------------------------ MODULE LobeHist ------------------------------
(* Lobes are added and the material is asked, in any order.                  *)
EXTENDS Lobes, TLC, Json
CONSTANTS NQ, NL, Single
VARIABLES m, hist, todo
vars == <<m, hist, todo>>
Rnd(S) == RandomElement(S)
Init == m = <<>> /\ hist = <<>> /\ todo = NQ
Add == /\ Len(m) < NL /\ todo > 0
       /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].o # "add" \/ Len(m) < 2) = TRUE
       /\ \E s \in {IF Single THEN "R" ELSE Rnd({"R", "T"})}, sp \in {Rnd({TRUE, FALSE, FALSE})},
             v \in {Rnd(1..9)}, p \in {Rnd(1..9)}, c \in {Rnd(1..5)}, g \in {Rnd(1..6)}, bl \in {Rnd(BOOLEAN)} :
          LET go == IF g = 1 /\ ~Single THEN "0" ELSE IF g = 2 /\ ~Single THEN (IF s = "R" THEN "T" ELSE "R") ELSE s
              l == [side |-> s, spec |-> sp, v |-> v, p |-> p, c |-> c, go |-> go, blind |-> (sp \/ ~Single) /\ bl]
          IN m' = Append(m, l) /\ hist' = Append(hist, [o |-> "add", l |-> l])
       /\ UNCHANGED todo
Ask == /\ todo > 0 /\ todo' = todo - 1 /\ UNCHANGED m
       /\ (IF Single THEN Len(m) = 1 ELSE TRUE) = TRUE
       /\ \E k \in {Rnd(1..3)}, side \in {Rnd({"R", "T"})}, ms \in {Rnd(BOOLEAN)},
             r \in {Rnd({0, 128} \cup {2 * i + 1 : i \in 0..(63 + 0 * todo)})}, up \in {Rnd(BOOLEAN)} :
          hist' = Append(hist,
            CASE k = 1 -> [o |-> "v", side |-> side, ms |-> ms, up |-> up, want |-> Value(m, side, ms)]
              [] k = 2 -> [o |-> "p", side |-> side, ms |-> ms, up |-> up, want |-> Pdf(m, side, ms)]
              [] k = 3 -> [o |-> "s", r |-> r, ms |-> ms, up |-> up, want |-> Sample(m, ms, r)])
Next == Add \/ Ask
Emit == todo = 0 => PrintT("@@" \o ToJson(hist))
=============================================================================
