------------------------------ MODULE Duration ------------------------------
(* A duration as an odometer of days, hours, minutes and seconds.            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS DS, HS, MS, SS
VARIABLES d, h, m, s
vars == <<d, h, m, s>>
Total(a, b, c, e) == ((a*24 + b)*60 + c)*60 + e
Limit == 8640000
Init == d \in DS /\ h \in HS /\ m \in MS /\ s \in SS
Tick == /\ d < 100
        /\ s' = (s + 1) % 60
        /\ m' = IF s = 59 THEN (m + 1) % 60 ELSE m
        /\ h' = IF s = 59 /\ m = 59 THEN (h + 1) % 24 ELSE h
        /\ d' = IF s = 59 /\ m = 59 /\ h = 23 THEN d + 1 ELSE d
Next == Tick
InDom == d \in DS /\ h \in HS /\ m \in MS /\ s \in SS
Piece(n, u) == IF n = 0 THEN "" ELSE ToString(n) \o u
Min(a, b) == IF a < b THEN a ELSE b
(* the text of a duration is made of one piece per unit that is not zero     *)
Text == Piece(d, "d ") \o Piece(h, "h ") \o Piece(m, "m ") \o Piece(s, "s ")
Fits == Len(Text) <= 16 \/ d = 100
OneSecond == [][Total(d', h', m', s') = Total(d, h, m, s) + 1]_vars
Canonical == LET t == Total(d, h, m, s) IN
  d = t \div 86400 /\ h = (t \div 3600) % 24 /\ m = (t \div 60) % 60 /\ s = t % 60
Unit(k) == IF k = 0 THEN <<100, "d ">> ELSE IF k = 1 THEN <<24, "h ">> ELSE IF k = 2 THEN <<60, "m ">> ELSE <<60, "s ">>
Table == [k \in 1..4 |-> [i \in 1..Unit(k-1)[1] |-> Piece(i - 1, Unit(k-1)[2])]]
Emit == (d = 0 /\ h = 0 /\ m = 0 /\ s = 0) =>
   PrintT("@@" \o ToJson([table |-> Table, limit |-> Limit, zero |-> "less than 1s", more |-> "more than 100d"]))
=============================================================================
