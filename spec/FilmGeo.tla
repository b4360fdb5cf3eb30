------------------------------ MODULE FilmGeo ------------------------------
(* The geometry the protocol of Film.tla relies on, in two dimensions: for   *)
(* one sample of one tile, the pixels that must receive it, those that may   *)
(* (exactly on the border of the support), and those the thread may update   *)
(* without the lock because no sample outside its tile can reach them.       *)
(* Positions are in quarter pixels.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Dims,    \* set of <<width, height>>
          Ranges,  \* filter ranges in pixels
          Cuts,    \* set of <<start, end>> intervals
          Frac     \* fractions of a pixel, in quarters, used for samples

VARIABLES dim, r, tx, ty, s, done
vars == <<dim, r, tx, ty, s, done>>
Abs(x) == IF x < 0 THEN -x ELSE x
Dist(p, q) == Abs(4*p + 2 - q)
Must(n, q) == {p \in 0..(n-1) : Dist(p, q) < 4*r}
May(n, q) == {p \in 0..(n-1) : Dist(p, q) <= 4*r}
(* pixels of an axis only the interval c can reach, in an image of n pixels *)
Excl(n, c) == {p \in c[1]..(c[2]-1) :
    \A q \in (0..(4*c[1])) \cup ((4*c[2])..(4*n)) :
        (q \in 0..(4*n) /\ ~(c[1] = 0 /\ q <= 0) /\ ~(c[2] = n /\ q >= 4*n))
        => Dist(p, q) > 4*r}
Pos(c) == {q \in (4*c[1])..(4*c[2]) : q % 4 \in Frac /\
              (q - 4*c[1] <= 12 \/ 4*c[2] - q <= 12 \/ (q \div 4) = (c[1]+c[2]) \div 2)}
Init == /\ dim \in Dims /\ r \in Ranges
        /\ tx \in {c \in Cuts : c[2] <= dim[1]}
        /\ ty \in {c \in Cuts : c[2] <= dim[2]}
        /\ s = <<>> /\ done = FALSE
Next == /\ ~done /\ \E x \in Pos(tx), y \in Pos(ty) : s' = <<x, y>>
        /\ done' = TRUE /\ UNCHANGED <<dim, r, tx, ty>>
Rng(S) == [lo |-> IF S = {} THEN 0 ELSE CHOOSE a \in S : \A b \in S : a <= b,
           hi |-> IF S = {} THEN -1 ELSE CHOOSE a \in S : \A b \in S : a >= b]
Emit == done => PrintT("@@" \o ToJson(<<dim[1], dim[2], r, tx[1], tx[2], ty[1], ty[2],
    s[1], s[2],
    Rng(Must(dim[1], s[1])).lo, Rng(Must(dim[1], s[1])).hi,
    Rng(Must(dim[2], s[2])).lo, Rng(Must(dim[2], s[2])).hi,
    Rng(May(dim[1], s[1])).lo, Rng(May(dim[1], s[1])).hi,
    Rng(May(dim[2], s[2])).lo, Rng(May(dim[2], s[2])).hi,
    Rng(Excl(dim[1], tx)).lo, Rng(Excl(dim[1], tx)).hi,
    Rng(Excl(dim[2], ty)).lo, Rng(Excl(dim[2], ty)).hi>>))
=============================================================================
