------------------------------ MODULE TexHist -------------------------------
(* Random textures and lookups through a scaled and shifted texture.         *)
EXTENDS Texture, TLC, Json
CONSTANTS N, MaxLog
VARIABLES side, seed, pyr, out, todo
vars == <<side, seed, pyr, out, todo>>
Rnd(S) == RandomElement(S)
Init == side = 0 /\ seed = 0 /\ pyr = <<>> /\ out = <<>> /\ todo = 0
Setup == /\ todo = 0 /\ out = <<>> /\ todo' = N
         /\ \E k \in {Rnd(0..MaxLog)}, q \in {Rnd(1..999)} :
            /\ side' = Pow2(k) /\ seed' = q /\ pyr' = Levels(Base(q, Pow2(k)), Pow2(k))
         /\ UNCHANGED out
Log(r) == out' = Append(out, r)
L == Log2(side)
(* an unfiltered lookup: uv in 1/16, scale in 1/16, shift in 1/Q *)
Near == \E u \in {Rnd(-50..50)}, v \in {Rnd(-50..50)}, sx \in {Rnd(-50..50)}, sy \in {Rnd(-50..50)},
          hx \in {Rnd(-600..600)}, hy \in {Rnd(-600..600)} :
        LET c == u * sx + hx  d == v * sy + hy IN
        Log([k |-> "n", u |-> u, v |-> v, sx |-> sx, sy |-> sy, hx |-> hx, hy |-> hy,
             r |-> {[ch \in Chan |-> pyr[1][z[1]][z[2]][ch]] : z \in Nearest(side, c, d)}])
(* trilinear: footprint 2^-k wide (k < 0: larger than the texture); the     *)
(* others are smaller.  w: which derivative is the widest                    *)
Tri == \E u \in {Rnd(-50..50)}, v \in {Rnd(-50..50)}, sx \in {Rnd({-32,-16,-8,-4,4,8,16,32})},
          sy \in {Rnd({-32,-16,-8,-4,4,8,16,32})}, hx \in {Rnd(-600..600)}, hy \in {Rnd(-600..600)},
          k \in {Rnd(-2..(L+2))}, w \in {Rnd(1..4)}, mant \in {Rnd(8..15)}, nod \in {Rnd(1..5)} :
        LET c == u * sx + hx  d == v * sy + hy
            lv == IF nod = 1 \/ L - k < 0 THEN 0 ELSE L - k
            a == IF lv >= L THEN L ELSE lv     \* nearest level below
            b == IF nod = 1 \/ L - k < 0 THEN a ELSE IF a = L THEN L ELSE a + 1
            val(l) == [ch \in Chan |-> Lin(pyr[l+1], Pow2(L - l), c, d, ch)]
        IN Log([k |-> "t", u |-> u, v |-> v, sx |-> sx, sy |-> sy, hx |-> hx, hy |-> hy,
                w |-> w, e |-> k, m |-> mant, nod |-> (nod = 1),
                lo |-> val(a), hi |-> val(b), fix |-> (nod = 1 \/ L - k < 0 \/ a = L)])
(* EWA: the short axis is one texel of level lv (or half of level 0), the    *)
(* other e half texels of that level                                         *)
Ew == \E lv \in {Rnd(0..L)}, small \in {Rnd(0..3)}, al \in {Rnd(0..1)}, sg \in {Rnd({-1, 1})},
         a \in {Rnd(-16..16)}, b \in {Rnd(-16..16)}, sw \in {Rnd(0..1)},
         u4 \in {Rnd(-20..150)}, v4 \in {Rnd(-20..150)} :
      LET s == Pow2(L - lv)
          h == IF small = 0 /\ lv = 0 THEN sg ELSE 2 * sg
          sv == IF al = 0 THEN <<h, 0>> ELSE <<0, h>>
          lg == IF Sq(a) + Sq(b) <= 4 THEN <<IF al = 0 THEN a ELSE 5, IF al = 0 THEN 5 ELSE b>> ELSE <<a, b>>
          c == u4 * (Q \div (4 * s))  d == v4 * (Q \div (4 * s))
          \* du: <<dudx, dudy>>, dv: <<dvdx, dvdy>>; an axis is (dudx, dvdx) or (dudy, dvdy)
          e == IF sw = 0 THEN <<sv[1], lg[1], sv[2], lg[2]>> ELSE <<lg[1], sv[1], lg[2], sv[2]>>
      IN Log([k |-> "e", c |-> c, d |-> d, s |-> s, e |-> e,
              r |-> IF lv = L THEN [ch \in Chan |-> pyr[L+1][0][0][ch]]
                    ELSE Ewa(pyr[lv+1], s, c, d, e)])
Step == /\ todo > 0 /\ todo' = todo - 1 /\ UNCHANGED <<side, seed, pyr>>
        /\ \E o \in {Rnd(1..4)} : CASE o <= 1 -> Near [] o = 2 -> Ew [] OTHER -> Tri
Next == Setup \/ Step
Emit == (todo = 0 /\ out # <<>>) => PrintT("@@" \o ToJson([side |-> side, seed |-> seed, out |-> out]))
=============================================================================
