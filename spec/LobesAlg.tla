------------------------------ MODULE LobesAlg ------------------------------
(* Laws of the choice among lobes, for every short list.                     *)
EXTENDS Lobes
CONSTANTS MaxLen
VARIABLES m
Sides == {"R", "T"}
Lobe == {[side |-> s, spec |-> b, v |-> v, p |-> v, c |-> 1, go |-> g, blind |-> FALSE] :
         s \in Sides, b \in BOOLEAN, v \in {1, 2}, g \in Sides \cup {"0"}}
Init == m = <<>>
Next == Len(m) < MaxLen /\ \E l \in Lobe : m' = Append(m, l)
Odd == {2 * k + 1 : k \in 0..63}
Count(ms, i) == Cardinality({r \in Odd : Chosen(m, ms, r) = i})
(* every matching lobe equally often, no other *)
Fair == \A ms \in BOOLEAN : \A i, j \in Eligible(m, ms) :
          LET d == Count(ms, i) - Count(ms, j) IN d <= 1 /\ d >= -1
Total == \A ms \in BOOLEAN : \A r \in Odd \cup {0, 128} :
          Eligible(m, ms) # {} => Chosen(m, ms, r) \in Eligible(m, ms)
(* a sampled pair of directions is worth what it is worth when asked for *)
Agrees == \A ms \in BOOLEAN, r \in Odd : LET s == Sample(m, ms, r) IN
          (s.lobe # 0 /\ ~s.spec) =>
            /\ s.v = Value(m, m[s.lobe].go, ms)
            /\ s.num = Pdf(m, m[s.lobe].go, ms).num /\ s.den = Pdf(m, m[s.lobe].go, ms).den
Black == \A ms \in BOOLEAN, r \in Odd : Eligible(m, ms) = {} => Sample(m, ms, r) = Nothing
=============================================================================
