-------------------------------- MODULE ColourTab --------------------------------
(* Tables of Colour for the code to be compared with.                           *)
EXTENDS Colour, TLC, Json
CONSTANT NTemps
VARIABLES n, c
R(S, k) == RandomElement({x \in S : k >= 0})
Fixed == <<300, 800, 1200, 1900, 2700, 3400, 4500, 5500, 6500, 9000, 15000, 30000, 40000>>
Temp(k) == IF k <= Len(Fixed) THEN Fixed[k] ELSE R(300..40000, k)
Glass(k) == [B |-> 10000 + R(0..9000, k), C |-> R(0..400, k), D |-> R(0..60, k)]
Init == n = 0 /\ c = [k |-> "observer", w |-> [i \in 1..16 |-> Observer[i]], sum |-> SumY]
Body2(t) == [k |-> "body", t |-> t, w |-> Body(t, -1), bent |-> Body(t, 1), seen |-> Seen(Body(t, -1)), bentseen |-> Seen(Body(t, 1))]
Cauchys(g) == [k |-> "cauchy", g |-> <<g.B, g.C, g.D>>, w |-> [i \in 1..16 |-> Cauchy(g.B, g.C, g.D, Waves[i])]]
Sells(b, q) == [k |-> "sellmeier", b |-> b, q |-> q, w |-> [i \in 1..16 |-> Sellmeier2(b, q, Waves[i])]]
Next == /\ n' = n + 1
        /\ \/ n < 256 /\ c' = [k |-> "value", v |-> n, w |-> Decode(n)]
           \/ n >= 256 /\ n < 256 + NTemps /\ \E t \in {Temp(n - 255)} : c' = Body2(t)
           \/ n >= 256 + NTemps /\ n < 256 + 2 * NTemps /\ \E g \in {Glass(n)} : c' = Cauchys(g)
           \/ n >= 256 + 2 * NTemps /\ n < 256 + 3 * NTemps
              /\ \E b \in {<<R(1000..20000, n), R(0..9000, n + 1), R(0..20000, n + 2)>>} :
                 \E q \in {<<R(0..300, n), R(0..900, n + 1), R(0..1000, n + 2)>>} : c' = Sells(b, q)
Emit == PrintT("@@" \o ToJson(c))
=============================================================================
