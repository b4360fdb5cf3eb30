------------------------------- MODULE PngPix -------------------------------
(* PNG pictures before compression: rows of samples of 1 to 16 bits of a     *)
(* colour type, and the colour each pixel stands for.                        *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxSide
VARIABLES pic, todo
Rnd(S) == RandomElement(S)
Init == pic = [w |-> 0] /\ todo = 1
Pow2(n) == 2 ^ n
(* colour types: 0 grey, 2 rgb, 3 palette, 4 grey + alpha, 6 rgb + alpha *)
Comps(t) == CASE t = 0 -> 1 [] t = 2 -> 3 [] t = 3 -> 1 [] t = 4 -> 2 [] t = 6 -> 4
Depths(t) == CASE t = 0 -> {1, 2, 4, 8, 16} [] t = 3 -> {1, 2, 4, 8} [] OTHER -> {8, 8, 16}
(* 16-bit samples keep their high byte, or round; small greys spread evenly *)
Near(s) == (s * 2 + 257) \div 514
To8(s, d) == IF d = 16 THEN (IF Near(s) < s \div 256 THEN Near(s) ELSE s \div 256) ELSE (s * 255) \div (Pow2(d) - 1)
Up8(s, d) == IF d = 16 THEN (IF Near(s) > s \div 256 THEN Near(s) ELSE s \div 256) ELSE (s * 255) \div (Pow2(d) - 1)
Make ==
  /\ todo = 1 /\ todo' = 0
  /\ \E t \in {Rnd({0, 2, 3, 4, 6})}, w \in {Rnd(1..MaxSide)}, h \in {Rnd(1..MaxSide)}, inter \in {Rnd({0, 0, 1})},
        trns \in {Rnd(BOOLEAN)} :
     \E d \in {Rnd(Depths(t))} :
     \E pal \in {[k \in 1..Pow2(IF t = 3 THEN d ELSE 0) |-> [c \in 1..4 |-> Rnd(0..(255 + 0 * k + 0 * c))]]} :
     \E sm \in {[k \in 1..(w * h) |-> [c \in 1..Comps(t) |-> Rnd({0, Pow2(d) - 1, Rnd(0..(Pow2(d) - 1 + 0 * k + 0 * c))})]]} :
       LET O(f(_, _)) == [k \in 1..(w * h) |->
             LET s == sm[k]
                 key == trns /\ s = sm[1]
             IN CASE t = 0 -> <<f(s[1], d), f(s[1], d), f(s[1], d), IF key THEN 0 ELSE 255>>
                  [] t = 2 -> <<f(s[1], d), f(s[2], d), f(s[3], d), IF key THEN 0 ELSE 255>>
                  [] t = 3 -> LET p == pal[s[1] + 1] IN <<p[1], p[2], p[3], IF trns THEN p[4] ELSE 255>>
                  [] t = 4 -> <<f(s[1], d), f(s[1], d), f(s[1], d), f(s[2], d)>>
                  [] t = 6 -> <<f(s[1], d), f(s[2], d), f(s[3], d), f(s[4], d)>>]
       IN pic' = [t |-> t, d |-> d, w |-> w, h |-> h, inter |-> inter, trns |-> trns, pal |-> pal, sm |-> sm,
                  lo |-> O(To8), hi |-> O(Up8)]
Next == Make
Emit == todo = 0 => PrintT("@@" \o ToJson(pic))
=============================================================================
