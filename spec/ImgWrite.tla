------------------------------ MODULE ImgWrite ------------------------------
(* Pictures to write: size, pixels, format and what was there before.        *)
EXTENDS Image, TLC, Json
CONSTANTS Exts, MaxSide, MaxPix
VARIABLES pic, todo
Rnd(S) == RandomElement(S)
Init == pic = [w |-> 0] /\ todo = 1
Sides(m) == (1..m) \cup {1, 2, 3, 4, 5}
Make ==
  /\ todo = 1 /\ todo' = 0
  /\ \E e \in {Rnd(Exts)}, w \in {Rnd(Sides(MaxSide))}, hh \in {Rnd(Sides(MaxSide))}, n \in {Rnd({1, 2, 5, 1000})},
        prev \in {Rnd({0, 0, 5, 3000})} :
     \E h \in {IF w * hh > MaxPix THEN 1 + (MaxPix \div (w + 1)) ELSE hh} :
     \E P \in {[k \in 1..n |-> [c \in 1..4 |-> Rnd({0, 255, Rnd(0..(255 + 0 * k + 0 * c))})]]} :
     \E px \in {[k \in 1..(w * h) |-> P[IF n = 1000 THEN ((k - 1) % n) + 1 ELSE Rnd(1..(n + 0 * k))]]} :
       pic' = [stop |-> Rnd({0, 999, Rnd(0..(999 + 0 * w)), Rnd(0..(999 + 0 * h))}), ext |-> e, w |-> w, h |-> h, px |-> px, prev |-> prev]
Next == Make
Emit == todo = 0 => PrintT("@@" \o ToJson(pic))
=============================================================================
