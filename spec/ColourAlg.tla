-------------------------------- MODULE ColourAlg --------------------------------
(* Laws of Colour, over every component value and a range of temperatures.      *)
EXTENDS Colour, TLC
CONSTANTS TMin, TMax, TStep
VARIABLES k, at
Temps == {t \in TMin..TMax : (t - TMin) % TStep = 0}
Init == \/ k = "value" /\ at \in 0..255
        \/ k = "body" /\ at \in Temps
Next == UNCHANGED <<k, at>>
Val == k = "value"
(* more of a component is more light; black is none and white is all *)
Monotone == Val /\ at < 255 => ~Less(Decode(at + 1), Decode(at)) /\ Decode(at) # Decode(at + 1)
Ends == Val => Decode(0) = Zero /\ Close(Decode(255), One, 2)
(* the two pieces of the curve meet: it has no step above one part in 500 *)
Joined == Val /\ at < 255 => ~Less(Div(One, Of(100)), Sub(Decode(at + 1), Decode(at)))
(* y^5 = x^12 for the encoded part *)
Curve == Val /\ ~Linear(at) =>
         LET x == Div(Of(at * 1000 + 14025), Of(269025))
             x2 == Mul(x, x)  x4 == Mul(x2, x2) IN
         Close(Pow5(Decode(at)), Mul(x4, Mul(x4, x4)), 12)
(* a grey is as bright as its components and has the colour of the white *)
Greys == Val => LET g == XYZ(<<at, at, at>>) IN \A j \in 1..3 : Close(g[j], Mul(Decode(at), Div(Of(White[j]), Of(10000000))), 4)
Body0 == k = "body"
B == Body(at, -1)
(* the brightest wavelength is one, no other is above it or negative *)
Scaled == Body0 => \A i \in 1..16 : ~Less(One, B[i]) /\ B[i][1] >= 0
Peak == Body0 => \E i \in 1..16 : B[i] = One
(* Wien: it is brightest where wave * T is 2.898e6 nm K, as far as it is visible *)
Wien == Body0 => LET w == 2897772 \div at
                     c == IF w < 400 THEN 400 ELSE IF w > 700 THEN 700 ELSE w IN
                 \E i \in 1..16 : Close(B[i], One, 2) /\ Waves[i] - c <= 20 /\ c - Waves[i] <= 20
(* hotter is bluer *)
Bluer == Body0 /\ at + TStep <= TMax /\ at >= 1000 =>
         LET h == Body(at + TStep, -1) IN
         \A i \in 1..15 : B[i + 1][1] > 0 /\ h[i + 1][1] > 0 =>
            ~Less(Mul(Div(h[i], h[i + 1]), <<16400, -14>>), Div(B[i], B[i + 1]))
(* what is seen of it: red below 2000 K, and more blue than red far above 6500 K *)
Tint == Body0 => LET s == Seen(B) IN (at <= 2000 => Less(s[3], s[1])) /\ (at >= 12000 => Less(s[1], s[3]))
(* a lower bound for e^x, and the law of exponents *)
ExpLaw == Val => LET a == at * 1024 + 77 IN /\ Close(Exp(a + 32768), Mul(Exp(a), Exp(32768)), 6)
                                            /\ ~Less(Mul(Exp(a), <<16400, -14>>), Div(Of(32768 + a), Of(32768)))
                                            /\ Close(Exp(32768), Div(Of(27183), Of(10000)), 2)
=============================================================================
