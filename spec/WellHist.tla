------------------------------ MODULE WellHist ------------------------------
(* Seeds (random, with few bits, constant) and the numbers they must give.   *)
EXTENDS Well, TLC, Json
CONSTANTS Num
VARIABLES w, seed, out, todo
vars == <<w, seed, out, todo>>
Rnd(S) == RandomElement(S)
Init == w = [s |-> <<>>, i |-> 0] /\ seed = <<>> /\ out = <<>> /\ todo = 32
H(k) == Rnd(0..(65535 + 0 * k))
Half_(kind, k) == CASE kind = 0 -> H(k) [] kind = 1 -> (IF Rnd(0..(40 + 0 * k)) = 0 THEN 2 ^ Rnd(0..(15 + 0 * k)) ELSE 0)
                    [] kind = 2 -> IF Rnd(0..(1 + 0 * k)) = 0 THEN 65535 ELSE H(k) [] OTHER -> 0
Seed == /\ todo > 0 /\ Len(seed) < 32
        /\ \E kind \in {Rnd(0..(2 + 0 * todo))} : \E a \in {Half_(kind, todo)}, b \in {Half_(kind, todo + 1)} :
           seed' = IF Rnd(0..(4 + 0 * todo)) = 0 /\ Len(seed) > 0 THEN Append(seed, seed[Len(seed)]) ELSE Append(seed, <<a, b>>)
        /\ UNCHANGED <<w, out, todo>>
Start == /\ Len(seed) = 32 /\ w.s = <<>>
         /\ w' = [s |-> [k \in 0..31 |-> Word(seed[k + 1][1], seed[k + 1][2])], i |-> 0]
         /\ todo' = Num /\ UNCHANGED <<seed, out>>
Draw == /\ w.s # <<>> /\ todo > 0
        /\ \E v \in {Pull(w)} : w' = v /\ out' = Append(out, Drawn(v))
        /\ todo' = todo - 1 /\ UNCHANGED seed
Next == Seed \/ Start \/ Draw
Emit == (todo = 0) => PrintT("@@" \o ToJson([seed |-> seed, out |-> out]))
=============================================================================
