--------------------------------- MODULE Colour ---------------------------------
(* Colours as the renderer takes and gives them: sRGB components, the XYZ      *)
(* values of the CIE 1931 observer, and light sampled at 16 wavelengths (400,  *)
(* 420, .. 700 nm). Numbers are "soft": <<m, e>> is m * 2^e with m of 15 bits  *)
(* (relative error below 2^-14 per step), which is all TLC's integers can do.  *)
EXTENDS Integers, Sequences

RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN <<0, 0>>
              ELSE IF m >= 65536 THEN Norm(m \div 2, e + 1)
              ELSE IF m >= 32768 THEN Norm((m + 1) \div 2, e + 1)
              ELSE IF m < 16384 THEN Norm(m * 2, e - 1) ELSE <<m, e>>
Of(n) == Norm(n, 0)
Zero == <<0, 0>>
Mul(a, b) == Norm((a[1] * b[1] + 8192) \div 16384, a[2] + b[2] + 14)
Div(a, b) == IF a[1] = 0 THEN Zero ELSE Norm((a[1] * 32768 + (b[1] \div 2)) \div b[1], a[2] - b[2] - 15)
Pow2(n) == 2 ^ n
RECURSIVE Add(_, _)
Add(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
             ELSE IF a[2] < b[2] THEN Add(b, a)
             ELSE IF a[2] - b[2] > 15 THEN a ELSE Norm(a[1] * Pow2(a[2] - b[2]) + b[1], b[2])
(* a - b, where a is not below b *)
Sub(a, b) == IF b[1] = 0 \/ a[2] - b[2] > 15 THEN a
             ELSE Norm(a[1] * Pow2(a[2] - b[2]) - b[1], b[2])
Less(a, b) == IF b[1] = 0 THEN FALSE ELSE IF a[1] = 0 THEN TRUE
              ELSE IF a[2] = b[2] THEN a[1] < b[1] ELSE a[2] < b[2]
Times(a, n) == Mul(a, Of(n))
(* within n parts in 10000 of each other *)
Close(a, b, n) == LET hi == IF Less(a, b) THEN b ELSE a
                      lo == IF Less(a, b) THEN a ELSE b IN
                  \/ hi[1] = 0
                  \/ lo[1] > 0 /\ ~Less(Div(Times(hi, n), Of(10000)), Sub(hi, lo))
Sum(s) == LET F[k \in 0..Len(s)] == IF k = 0 THEN Zero ELSE Add(F[k - 1], s[k]) IN F[Len(s)]

(* ---- sRGB components to linear light ---------------------------------------*)
Pow5(x) == LET y == Mul(x, x) IN Mul(x, Mul(y, y))
(* the fifth root of x <= 1, by bisection over multiples of 2^-15 *)
Root5(x) == LET RECURSIVE B(_, _)
                B(lo, hi) == IF hi - lo <= 1 THEN lo
                             ELSE LET mid == (lo + hi) \div 2 IN
                                  IF Less(x, Pow5(Norm(mid, -15))) THEN B(lo, mid) ELSE B(mid, hi)
            IN Norm(B(1, 32769), -15)
(* component v of 255: linear up to 0.04045, then ((v + .055) / 1.055) ^ 2.4 *)
Linear(v) == v * 100000 <= 4045 * 255
Decode(v) == IF Linear(v) THEN Div(Of(v * 100), Of(329460))
             ELSE LET x == Div(Of(v * 1000 + 14025), Of(269025))
                      y == Mul(x, x) IN Mul(y, Root5(y))
(* primaries and white of sRGB, in parts of 10^7 *)
Matrix == <<<<4124564, 3575761, 1804375>>, <<2126729, 7151522, 721750>>, <<193339, 1191920, 9503041>>>>
Coef(i, j) == Div(Of(Matrix[i][j]), Of(10000000))
XYZ(c) == [i \in 1..3 |-> Sum([j \in 1..3 |-> Mul(Coef(i, j), Decode(c[j]))])]
White == <<9504700, 10000001, 10888300>>

(* ---- black bodies ------------------------------------------------------------*)
Waves == [i \in 1..16 |-> 380 + 20 * i]
(* second radiation constant in nm K *)
Second == 14387769
(* c / (wave * T) in parts of 2^15, by long division in base 64 *)
Ratio(wave, T) == LET d == wave * T
                      r0 == Second % d
                      q1 == (r0 * 32) \div d       r1 == (r0 * 32) % d
                      q2 == (r1 * 32) \div d       r2 == (r1 * 32) % d
                      q3 == (r2 * 32) \div d
                  IN (Second \div d) * 32768 + q1 * 1024 + q2 * 32 + q3
(* e^(a / 2^15) = 2^(a log2(e)) *)
Exp(a) == LET l == a + (a \div 32768) * 14506 + ((a % 32768) * 14506) \div 32768
              f == l % 32768
              (* 2^(f / 2^15) by bits *)
              Roots == <<23170, 19484, 17867, 17109, 16743, 16562, 16473, 16428, 16406, 16395, 16390, 16387, 16385, 16385, 16384>>
              F[k \in 0..15] == IF k = 0 THEN <<16384, -14>>
                                ELSE IF (f \div Pow2(15 - k)) % 2 = 1 THEN Mul(F[k - 1], <<Roots[k], -14>>) ELSE F[k - 1]
          IN <<F[15][1], F[15][2] + (l \div 32768)>>
One == <<16384, -14>>
(* light per wavelength, up to a factor: photons per mode over wave^5; the sign *)
(* is -1 for light (Planck); the code has +1, see known_findings.json          *)
Raw(T, wave, sign) == LET x == Div(Of(700), Of(wave))
                          e == Exp(Ratio(wave, T))
                          n == IF sign = 1 THEN Add(e, One) ELSE Sub(e, One)
                      IN Div(Pow5(x), n)
Brightest(s) == LET F[k \in 1..Len(s)] == IF k = 1 THEN s[1] ELSE LET p == F[k - 1] IN IF Less(p, s[k]) THEN s[k] ELSE p IN F[Len(s)]
Body(T, sign) == LET raw == [i \in 1..16 |-> Raw(T, Waves[i], sign)]
                     top == Brightest(raw)
                 IN [i \in 1..16 |-> Div(raw[i], top)]

(* ---- the observer: CIE 1931, every 10 nm from 400 to 720, parts of 10000 ----*)
CX == <<143, 435, 1344, 2839, 3483, 3362, 2908, 1954, 956, 320, 49, 93, 633, 1655, 2904, 4334, 5945, 7621, 9163, 10263,
        10622, 10026, 8544, 6424, 4479, 2835, 1649, 874, 468, 227, 114, 58, 29>>
CY == <<4, 12, 40, 116, 230, 380, 600, 910, 1390, 2080, 3230, 5030, 7100, 8620, 9540, 9950, 9950, 9520, 8700, 7570,
        6310, 5030, 3810, 2650, 1750, 1070, 610, 320, 170, 82, 41, 21, 10>>
CZ == <<679, 2074, 6456, 13856, 17471, 17721, 16692, 12876, 8130, 4652, 2720, 1582, 782, 422, 203, 87, 39, 21, 17, 11,
        8, 3, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
(* the 16 samples share the range from 400 to 700 nm: 18.75 nm each; the mean  *)
(* of five points of each share, u in hundredths of nm above 400               *)
Point(C, u) == LET q == (u \div 1000) + 1  f == u % 1000 IN (C[q] * (1000 - f) + C[q + 1] * f) \div 1000
Over(C, i) == LET F[q \in 0..5] == IF q = 0 THEN 0 ELSE F[q - 1] + Point(C, 1875 * (i - 1) + 375 * q - 188) IN F[5] \div 5
Observer == [i \in 1..16 |-> <<Over(CX, i), Over(CY, i), Over(CZ, i)>>]
SumY == LET F[k \in 0..16] == IF k = 0 THEN 0 ELSE F[k - 1] + Observer[k][2] IN F[16]
(* XYZ of a spectrum, such that a spectrum of ones has a luminance of one *)
Seen(s) == [j \in 1..3 |-> Div(Sum([i \in 1..16 |-> Times(s[i], Observer[i][j])]), Of(SumY))]

(* ---- index of refraction: B + C / l^2 + D / l^4, l in micrometres -------------*)
(* Cauchy, coefficients in parts of 10000 *)
Cauchy(B, C, D, wave) == LET l2 == Div(Of(wave * wave), Of(1000000)) IN
                         Div(Add(Of(B), Add(Div(Of(C), l2), Div(Of(D), Mul(l2, l2)))), Of(10000))
(* the square of Sellmeier's: 1 + sum B l^2 / (l^2 - C), C below the wavelengths *)
Sellmeier2(B, C, wave) == LET l2 == Div(Of(wave * wave), Of(1000000)) IN
                          Add(One, Sum([k \in 1..3 |-> Div(Div(Mul(Of(B[k]), l2), Of(10000)), Sub(l2, Div(Of(C[k]), Of(10000))))]))
=============================================================================
