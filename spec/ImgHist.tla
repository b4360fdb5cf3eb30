------------------------------- MODULE ImgHist -------------------------------
(* Makes an image, writes it in some layout of some format - run-length      *)
(* packets chosen one at a time - and then damages the file.                 *)
EXTENDS Image, TLC, Json, FiniteSets
CONSTANTS Fmts, MaxSide, MaxPix, Damages
VARIABLES fmt, img, v, bytes, phase, left, dmg
vars == <<fmt, img, v, bytes, phase, left, dmg>>
Rnd(S) == RandomElement(S)
None == [w |-> 0, h |-> 0, px |-> <<>>]
NoV == [none |-> 0]
Init == /\ fmt = "" /\ img = None /\ v = NoV /\ bytes = <<>>
        /\ phase = "start" /\ left = 0 /\ dmg = <<>>
Sides(m) == IF m < 100 THEN {1, 2, 3, 4, 5, 7, 8, 9, 13} \cup {Rnd(1..m)}
            ELSE {1, 2, 64, 127, 128, 129, 130, 255, 256, 257, 300} \cup {Rnd(1..m)}
Junk(n) == [i \in 1..n |-> Rnd(0..(255 + 0 * n))]
Chan(m, k) == Rnd({0, 1, m \div 2, m, m, 0} \cup {Rnd(0..m + 0 * k), Rnd(0..m + 0 * k)})
Gauge == [vanilla |-> 1]
Start ==
  /\ phase = "start"
  /\ \E f \in {Rnd(Fmts)}, w \in {Rnd(Sides(MaxSide))}, hh \in {Rnd(Sides(MaxSide))},
        pal \in {Rnd({1, 2, 3, 1000})} :
     \E mx \in {IF f = "ppm" THEN Rnd({1, 2, 15, 100, 254, 255, 255, 256, 257, 1000, 1024, 32768, 65534, 65535, Rnd(1..65535)}) ELSE 255} :
     LET h == IF w * hh > MaxPix THEN 1 + (MaxPix \div (w + 1)) ELSE hh
         P == [i \in 1..pal |-> <<Chan(mx, i), Chan(mx, i), Chan(mx, i), Rnd(0..(255 + 0 * i))>>]
         Q == IF pal = 1000 THEN [i \in 1..(w * h) |-> <<Chan(mx, i), Chan(mx, i), Chan(mx, i), Rnd(0..(255 + 0 * i))>>]
              ELSE [i \in 1..(w * h) |-> P[Rnd(1..(pal + 0 * i))]]
     IN \* once, not at every use
        /\ \E px \in {Q} : img' = [w |-> w, h |-> h, px |-> px]
        /\ fmt' = f /\ left' = mx
        /\ phase' = "variant" /\ UNCHANGED <<v, bytes, dmg>>
Gaps == {<<32>>, <<10>>, <<9>>, <<13, 10>>, <<32, 32>>, <<32, 10, 32>>}
Notes == {<<35, 32, 119, 10>>, <<10, 35, 10>>, <<32, 35, 52, 50, 32, 55, 10>>, <<10, 35, 35, 97, 10, 35, 98, 10, 32>>,
          <<13, 35, 97, 13>>, <<10, 35, 49, 13, 10>>}
Seps == Gaps \cup Notes
(* a note right after a number is one token with it to some readers *)
SepAfter(k) == LET s == Rnd(Seps) IN IF s[1] = 35 THEN <<10 + 0 * k>> \o s ELSE s
Variant ==
  /\ phase = "variant"
  /\ CASE fmt = "bmp" ->
          \E by \in {Rnd({3, 4})}, t \in {Rnd(BOOLEAN)}, hs \in {Rnd({40, 40, 52, 56, 108, 124})},
             g \in {Junk(Rnd({0, 0, 1, 2, 7, 202, 300}))}, j \in {Rnd(0..255 + 0 * left)}, tl \in {Junk(Rnd({0, 0, 2, 5}))},
             raw \in {Rnd(BOOLEAN)}, res \in {Rnd({0, 2835})}, im \in {Rnd({0, 7})} :
            v' = [bytes |-> by, top |-> t, hsize |-> hs, gap |-> g, junk |-> j, tail |-> tl, raw |-> raw,
                  res |-> res, important |-> im]
       [] fmt = "tga" ->
          \E bpp \in {Rnd({15, 16, 24, 32})}, t \in {Rnd(BOOLEAN)}, rle \in {Rnd(1..3) > 1},
             id \in {Junk(Rnd({0, 0, 1, 5, 30}))}, x0 \in {Rnd({0, 3})}, y0 \in {Rnd({0, 260})},
             tl \in {Junk(Rnd({0, 0, 26}))}, cm \in {Rnd({<<0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 24>>})} :
            v' = [bpp |-> bpp, top |-> t, rle |-> rle, id |-> id, x0 |-> x0, y0 |-> y0, tail |-> tl, cmap |-> cm,
                  abits |-> IF bpp = 32 THEN 8 ELSE IF bpp = 16 THEN Rnd({0, 1}) ELSE 0, packets |-> <<>>]
       [] fmt = "ppm" ->
          \E pl \in {Rnd(BOOLEAN)}, s1 \in {SepAfter(1)}, s2 \in {SepAfter(2)}, s3 \in {SepAfter(3)},
             s4 \in {Rnd(Gaps)}, en \in {Rnd({10, 10, 32, 9, 13})}, gs \in {[i \in 1..7 |-> Rnd(Gaps)]},
             la \in {Rnd({<<>>, <<10>>, <<32>>})}, tl \in {Junk(Rnd({0, 0, 3}))} :
            v' = [plain |-> pl, max |-> left, sep |-> <<s1, s2, s3, s4>>, end |-> en, gaps |-> gs, last |-> la,
                  tail |-> IF pl THEN <<>> ELSE tl]
  /\ IF fmt = "tga" THEN left' = 0 /\ phase' = "packets" ELSE left' = 0 /\ phase' = "write"
  /\ UNCHANGED <<fmt, img, bytes, dmg>>
Total == img.w * img.h
RECURSIVE Same(_, _)
(* pixels of the file equal to the one at k, from k on *)
Same(k, n) == IF n = 128 \/ k + n >= Total THEN n
              ELSE IF TgaPix(TgaAt(img, v, k + n), v, 0) # TgaPix(TgaAt(img, v, k), v, 0) THEN n
              ELSE Same(k, n + 1)
Packet ==
  /\ phase = "packets" /\ left < Total /\ v.rle
  /\ \E s \in {Same(left, 1)} :
     \E run \in {IF s > 1 THEN Rnd({TRUE, TRUE, FALSE}) ELSE Rnd({TRUE, FALSE, FALSE, FALSE})} :
     LET rest == IF Total - left < 128 THEN Total - left ELSE 128
         most == IF run THEN s ELSE rest
     IN \E n \in {Rnd({most, most, Rnd(1..most)} \cup (IF most > 2 THEN {1, 2} ELSE {}))} :
          v' = [v EXCEPT !.packets = Append(@, <<run, n>>)] /\ left' = left + n
  /\ UNCHANGED <<fmt, img, bytes, phase, dmg>>
(* a 16-bit run repeats its attribute bit, whatever the pixel *)
Write ==
  /\ \/ phase = "write"
     \/ phase = "packets" /\ (left = Total \/ ~v.rle)
  /\ bytes' = Encode(fmt, img, v) /\ phase' = IF Damages = {} THEN "done" ELSE "damage"
  /\ left' = 0 /\ UNCHANGED <<fmt, img, v, dmg>>
(* faults: a truncation, bytes replaced (anywhere or in the header), bytes inserted or taken out *)
Head0 == IF fmt = "bmp" THEN 54 ELSE 18
Words == {<<45, 51>>, <<48>>, <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<97, 98, 99>>, <<>>,
          <<52, 50, 57, 52, 57, 54, 55, 50, 57, 55>>, <<49, 54, 55, 55, 55, 50, 49, 54>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>,
          <<54, 53, 53, 51, 54>>, <<49>>, <<43, 50>>, <<50, 46, 53>>}
Fields == IF fmt = "bmp" THEN {<<0, 2>>, <<10, 4>>, <<14, 4>>, <<18, 4>>, <<22, 4>>, <<18, 4>>, <<22, 4>>, <<28, 2>>, <<30, 4>>, <<46, 4>>, <<26, 2>>}
          ELSE {<<0, 1>>, <<1, 1>>, <<2, 1>>, <<12, 2>>, <<14, 2>>, <<16, 1>>, <<17, 1>>, <<12, 2>>, <<14, 2>>}
Nasty(n, k) == IF n = 1 THEN <<Rnd({0, 1, 2, 7, 8, 10, 16, 24, 32, 40, 48, 128, 255, Rnd(0..(255 + 0 * k))})>>
            ELSE IF n = 2 THEN Rnd({<<0, 0>>, <<255, 255>>, <<1, 0>>, <<0, 128>>, <<255, 127>>, Junk(2), <<Rnd(0..(20 + 0 * k)), 0>>, <<8, 0>>, <<16, 0>>, <<32, 0>>})
            ELSE Rnd({<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<0, 0, 0, 128>>, <<255, 255, 255, 127>>, <<1, 0, 0, 0>>,
                      <<0, 0, 0, 64>>, <<1, 0, 0, 128>>, <<Rnd(0..(60 + 0 * k)), 0, 0, 0>>, <<255 - Rnd(0..(20 + 0 * k)), 255, 255, 255>>,
                      <<0, 0, 1, 0>>, <<85, 85, 85, 85>>, <<86, 85, 85, 85>>, <<171, 170, 170, 170>>, <<12, 0, 0, 0>>, Junk(4)})
Cut(n) == Rnd({0, 1, 2, n - 1, n - 2, n - 3, n - 4, n - 5} \cup {Rnd(0..n), Rnd(0..n), Rnd(0..n)}
              \cup (IF n > Head0 + 1 THEN {Head0 - 1, Head0, Head0 + 1} ELSE {}))
Replace(b, i, s) == [k \in 1..Len(b) |-> IF k > i /\ k <= i + Len(s) THEN s[k - i] ELSE b[k]]
Damage ==
  /\ phase = "damage" /\ Len(bytes) > 8
  /\ \E d \in {Rnd(Damages)}, more \in {Rnd({TRUE, FALSE, FALSE})} :
     /\ CASE d = "cut" -> \E k \in {Cut(Len(bytes))} :
               bytes' = SubSeq(bytes, 1, k) /\ dmg' = Append(dmg, <<d, k>>)
          [] d = "byte" -> \E k \in {Rnd(0..(Len(bytes) - 1))}, x \in {Nasty(1, left)} :
               bytes' = Replace(bytes, k, x) /\ dmg' = Append(dmg, <<d, k, x[1]>>)
          [] d = "field" /\ fmt # "ppm" -> \E f \in {Rnd(Fields)} : \E x \in {Nasty(f[2], left)} :
               bytes' = Replace(bytes, f[1], x) /\ dmg' = Append(dmg, <<d, f[1]>>)
          [] d = "field" /\ fmt = "ppm" ->
               \E k \in {Rnd({1, 2, 2, 3, 3, 4, 4})}, x \in {Rnd(Words)} :
               LET i1 == Skip(bytes, 2)
                   i2 == Skip(bytes, NumEnd(bytes, i1))
                   i3 == Skip(bytes, NumEnd(bytes, i2))
                   p == <<1, i1, i2, i3>>[k]
                   q == IF k = 1 THEN 2 ELSE NumEnd(bytes, p)
               IN bytes' = SubSeq(bytes, 1, p) \o x \o SubSeq(bytes, q + 1, Len(bytes)) /\ dmg' = Append(dmg, <<d, k>>)
          [] d = "out" -> \E k \in {Rnd(1..Len(bytes))}, n \in {Rnd(1..4)} :
               bytes' = SubSeq(bytes, 1, k - 1) \o SubSeq(bytes, k + n, Len(bytes)) /\ dmg' = Append(dmg, <<d, k, n>>)
          [] d = "in" -> \E k \in {Rnd(0..Len(bytes))}, s \in {Junk(Rnd(1..4))} :
               bytes' = SubSeq(bytes, 1, k) \o s \o SubSeq(bytes, k + 1, Len(bytes)) /\ dmg' = Append(dmg, <<d, k>>)
     /\ phase' = IF more /\ Len(dmg) < 3 THEN "damage" ELSE "done"
  /\ left' = 0 /\ UNCHANGED <<fmt, img, v>>
GiveUp == /\ phase = "damage" /\ Len(bytes) <= 8 /\ phase' = "done" /\ UNCHANGED <<fmt, img, v, bytes, left, dmg>>
Next == Start \/ Variant \/ Packet \/ Write \/ Damage \/ GiveUp
(* decoding what was encoded gives what is owed *)
RoundTrip == phase = "done" /\ dmg = <<>> => Decode(fmt, bytes) = Owed(fmt, img, v)
Plain(r) == IF r.st = "ok" THEN [st |-> "ok", w |-> r.w, h |-> r.h, lo |-> r.lo, exact |-> r.lo = r.hi,
                                  hi |-> IF r.lo = r.hi THEN <<>> ELSE r.hi] ELSE r
Emit == phase = "done" => PrintT("@@" \o ToJson([fmt |-> fmt, b |-> bytes, r |-> Plain(Decode(fmt, bytes)), dmg |-> dmg,
           v |-> IF "tail" \in DOMAIN v THEN [v EXCEPT !.tail = <<>>] ELSE v]))
=============================================================================
