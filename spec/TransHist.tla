----------------------------- MODULE TransHist ------------------------------
EXTENDS Transport, TLC, Json
CONSTANTS NS
VARIABLES sheets, z, dir, path, script, terms, phase
vars == <<sheets, z, dir, path, script, terms, phase>>
Rnd(S) == RandomElement(S)
Init == sheets = <<>> /\ z = 0 /\ dir = 0 /\ path = <<>> /\ script = <<>> /\ terms = <<>> /\ phase = "build"
Build == /\ phase = "build" /\ Len(sheets) < NS
         /\ \E up \in {Rnd(BOOLEAN)}, l \in {Rnd({0, 0, 0, 1, 2, 3})}, m \in {Rnd({TRUE, FALSE, FALSE})},
               f \in {Rnd(1..9)}, p \in {Rnd(1..9)} :
            sheets' = Append(sheets, [up |-> up, light |-> l, mirror |-> m, f |-> f, p |-> p])
         /\ UNCHANGED <<z, dir, path, script, terms, phase>>
Enter == /\ phase = "build" /\ Len(sheets) = NS /\ phase' = "walk"
         /\ \E d \in {Rnd({-1, 1})}, k \in {2 * Rnd(0..NS) + 1} :
            LET zz == IF NextSheet(sheets, k, d) = 0 THEN (IF d = 1 THEN 1 ELSE 2 * NS + 1) ELSE k IN
            /\ dir' = d /\ z' = zz
            /\ path' = <<[v |-> 0, s |-> NextSheet(sheets, zz, d), dir |-> d, num |-> 1, den |-> 1, spec |-> FALSE]>>
         /\ UNCHANGED <<sheets, script, terms>>
Us == {3, 9, 15, 21, 27, 31, 33, 45, 57, 63}
Step ==
  /\ phase = "walk" /\ UNCHANGED <<sheets, z, dir>>
  /\ \E u \in {Rnd({x \in Us : x > 0 * Len(script)})}, g \in {Rnd(1..12)}, w \in {Rnd({0, 0, 1, 1, 2})},
        bg \in {Rnd({-1, 1, 0})}, bf \in {Rnd(1..9)}, bp \in {Rnd(1..9)}, d \in {Rnd({-1, 1})} :
     LET p == path[Len(path)]
         in1 == NextSheet(sheets, 2 * p.s, d) # 0
         q == [u |-> u, go |-> IF g = 1 THEN 0 ELSE IF in1 \/ g = 2 THEN d ELSE -d, w |-> w,
               bgo |-> IF sheets[p.s].mirror THEN 0 ELSE bg, bf |-> bf, bp |-> bp]
     IN /\ script' = Append(script, q)
        /\ terms' = terms \o Terms(sheets, p, q)
        /\ IF Over(sheets, p, q) THEN phase' = "done" /\ UNCHANGED path
           ELSE phase' = "walk" /\ path' = Append(path, Follow(sheets, p, q))
Next == Build \/ Enter \/ Step
(* emission is taken at the first vertex and through mirrors only, direct    *)
(* light never at mirrors; the path is bounded; power is a probability until *)
(* the lottery                                                               *)
Sound == /\ Len(path) <= LastBounce + 1
         /\ \A i \in 1..Len(terms) : terms[i].t = "e" =>
              terms[i].v = 0 \/ sheets[path[terms[i].v].s].mirror
         /\ \A i \in 1..Len(terms) : terms[i].t # "e" => ~sheets[path[terms[i].v + 1].s].mirror
         /\ \A i \in 1..Len(path) : path[i].v < LotteryFrom + 1 => path[i].num <= path[i].den
(* what the lottery takes away it gives back *)
FairLottery == \A i \in 1..Len(path) : Plays(path[i]) =>
  LET r == Risk(path[i])  w == Weight(path[i]) IN (r[2] - r[1]) * w[1] = r[2] * w[2]
Emit == phase = "done" => PrintT("@@" \o ToJson(
  [sheets |-> sheets, z |-> z, dir |-> dir, script |-> script, terms |-> terms,
   path |-> [i \in 1..Len(path) |-> path[i].s]]))
=============================================================================
