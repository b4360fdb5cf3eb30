-------------------------------- MODULE Image --------------------------------
(* BMP, TGA and PPM files as sequences of bytes.  An image is a record of    *)
(* width w, height h and px, row by row from the top, each pixel <<r,g,b,a>>.*)
(* Encode writes one of the layouts a format allows (a variant v); Decode is *)
(* what a reader owes for any sequence of bytes:                             *)
(*   "ok"     a supported, complete file: lo and hi bound every channel      *)
(*   "refuse" not an image of that kind, without pixels, or with less data   *)
(*            than its header announces                                      *)
(*   "other"  well-formed perhaps, but outside of what is supported here     *)
EXTENDS Naturals, Sequences, SequencesExt
U16(b, i) == b[i + 1] + 256 * b[i + 2]           \* little endian, from 0
Big(b, i) == b[i + 4] # 0                        \* 2^24 or more
U24(b, i) == b[i + 1] + 256 * b[i + 2] + 65536 * b[i + 3]
Neg(b, i) == b[i + 4] >= 128
Low(b, i) == <<255 - b[i+1], 255 - b[i+2], 255 - b[i+3], 255 - b[i+4]>>
LE16(n) == <<n % 256, n \div 256>>
LE32(n) == LE16(n % 65536) \o LE16(n \div 65536)
NegLE32(n) == [i \in 1..4 |-> 255 - LE32(n - 1)[i]]
Const(n, x) == [i \in 1..n |-> x]
Pix(img, x, y) == img.px[y * img.w + x + 1]
Done(w, h, lo, hi) == [st |-> "ok", w |-> w, h |-> h, lo |-> lo, hi |-> hi]
Exact(w, h, px) == Done(w, h, px, px)
Refuse == [st |-> "refuse"]
Other == [st |-> "other"]
-----------------------------------------------------------------------------
(* Windows bitmaps: blue green red (alpha), rows padded to 4 bytes *)
RowLen(w, bytes) == ((w * bytes + 3) \div 4) * 4
BmpRow(img, v, y, n) ==
  [i \in 1..n |-> LET c == (i - 1) % v.bytes
                      x == (i - 1) \div v.bytes
                  IN IF x >= img.w THEN v.junk
                     ELSE Pix(img, x, y)[<<3, 2, 1, 4>>[c + 1]]]
Bmp(img, v) ==
  LET n == RowLen(img.w, v.bytes)
      off == 14 + v.hsize + Len(v.gap)
      data == FlattenSeq([k \in 1..img.h |->
                BmpRow(img, v, IF v.top THEN k - 1 ELSE img.h - k, n)])
  IN <<66, 77>> \o LE32(off + n * img.h) \o <<0, 0, 0, 0>> \o LE32(off)
     \o LE32(v.hsize) \o LE32(img.w) \o (IF v.top THEN NegLE32(img.h) ELSE LE32(img.h))
     \o LE16(1) \o LE16(8 * v.bytes) \o LE32(0)
     \o LE32(IF v.raw THEN n * img.h ELSE 0)
     \o LE32(v.res) \o LE32(v.res) \o LE32(0) \o LE32(v.important)
     \o Const(v.hsize - 40, v.junk) \o v.gap \o data \o v.tail
BmpDecode(b) ==
  IF Len(b) < 2 \/ b[1] # 66 \/ b[2] # 77 \/ Len(b) < 54 THEN Refuse
  ELSE LET top == Neg(b, 22)
           wbad == Neg(b, 18) \/ (~Big(b, 18) /\ U24(b, 18) = 0)
           hb == IF top THEN Low(b, 22) ELSE SubSeq(b, 23, 26)
           hbad == ~top /\ ~Big(b, 22) /\ U24(b, 22) = 0
           hmin == top /\ hb = <<255, 255, 255, 127>>
           bpp == U16(b, 28)
           bytes == bpp \div 8
           small == ~Big(b, 14) /\ U24(b, 14) < 40
       IN IF wbad \/ hbad \/ hmin \/ small THEN Refuse
          ELSE IF b[31] # 0 \/ b[32] # 0 \/ b[33] # 0 \/ b[34] # 0 \/ b[47] # 0
                  \/ b[48] # 0 \/ b[49] # 0 \/ b[50] # 0 \/ bpp \notin {24, 32}
          THEN Other
          ELSE IF Big(b, 18) \/ hb[4] # 0 \/ Big(b, 10) THEN Refuse
          ELSE LET w == U24(b, 18)
                   h == U24(hb, 0) + (IF top THEN 1 ELSE 0)
                   off == U24(b, 10)
                   n == RowLen(w, bytes)
               IN IF w > Len(b) \/ h > Len(b) \/ off > Len(b) THEN Refuse
                  ELSE IF off + n * (h - 1) + w * bytes > Len(b) THEN Refuse
                  ELSE IF off < 54 \/ off + n * h > Len(b) THEN Other
                  ELSE Exact(w, h, [k \in 1..(w * h) |->
                         LET y == (k - 1) \div w
                             x == (k - 1) % w
                             r == IF top THEN y ELSE h - 1 - y
                             p == off + r * n + x * bytes
                         IN <<b[p+3], b[p+2], b[p+1], IF bytes = 4 THEN b[p+4] ELSE 255>>])
-----------------------------------------------------------------------------
(* Truevision TGA: blue green red (alpha) or 5 bits each in a 16-bit word;   *)
(* run-length packets may cross rows.  v.packets: <<run?, number of pixels>> *)
TgaBytes(v) == (v.bpp + 7) \div 8
TgaPix(p, v, k) ==
  IF v.bpp <= 16
  THEN LET r == p[1] \div 8
           g == p[2] \div 8
           bl == p[3] \div 8
           at == IF v.bpp = 16 THEN (k + p[1]) % 2 ELSE 0
       IN <<(g % 8) * 32 + bl, at * 128 + r * 4 + (g \div 8)>>
  ELSE IF v.bpp = 24 THEN <<p[3], p[2], p[1]>> ELSE <<p[3], p[2], p[1], p[4]>>
(* the k-th pixel of the file, from 0 *)
TgaAt(img, v, k) == IF v.top THEN Pix(img, k % img.w, k \div img.w)
                    ELSE Pix(img, k % img.w, img.h - 1 - (k \div img.w))
RECURSIVE TgaPackets(_, _, _, _)
TgaPackets(img, v, ps, k) ==
  IF ps = <<>> THEN <<>>
  ELSE LET run == Head(ps)[1]
           n == Head(ps)[2]
       IN <<IF run THEN <<127 + n>> \o TgaPix(TgaAt(img, v, k), v, k)
            ELSE <<n - 1>> \o FlattenSeq([i \in 1..n |-> TgaPix(TgaAt(img, v, k + i - 1), v, k + i)])>>
          \o TgaPackets(img, v, Tail(ps), k + n)
Tga(img, v) ==
  <<Len(v.id), 0, IF v.rle THEN 10 ELSE 2>> \o v.cmap
  \o LE16(v.x0) \o LE16(v.y0) \o LE16(img.w) \o LE16(img.h)
  \o <<v.bpp, v.abits + (IF v.top THEN 32 ELSE 0)>> \o v.id
  \o (IF v.rle THEN FlattenSeq(TgaPackets(img, v, v.packets, 0))
      ELSE FlattenSeq([k \in 1..(img.w * img.h) |-> TgaPix(TgaAt(img, v, k - 1), v, k)]))
  \o v.tail
TgaLo(b, p, n) ==
  IF n = 2 THEN <<8 * ((b[p+2] % 128) \div 4),
                  8 * ((b[p+2] % 4) * 8 + (b[p+1] \div 32)),
                  8 * (b[p+1] % 32), 255>>
  ELSE <<b[p+3], b[p+2], b[p+1], IF n = 4 THEN b[p+4] ELSE 255>>
(* where the pixels of the packets are: offsets, or less when data ends *)
RECURSIVE TgaScan(_, _, _, _)
TgaScan(b, p, n, left) ==
  IF left = 0 THEN <<>>
  ELSE IF p >= Len(b) THEN <<[t |-> "end", at |-> <<>>]>>
  ELSE LET run == b[p+1] >= 128
           c == (b[p+1] % 128) + 1
           k == IF c > left THEN left ELSE c
           need == IF run THEN n ELSE n * c
           needk == IF run THEN n ELSE n * k
       IN IF p + 1 + needk > Len(b) THEN <<[t |-> "end", at |-> <<>>]>>
          ELSE IF c > left THEN <<[t |-> "over", at |-> <<>>]>>
          ELSE <<[t |-> "ok", at |-> [i \in 1..k |-> IF run THEN p + 1 ELSE p + 1 + n * (i - 1)]]>>
               \o TgaScan(b, p + 1 + need, n, left - k)
TgaDecode(b) ==
  IF Len(b) < 18 THEN Refuse
  ELSE LET w == U16(b, 12)
           h == U16(b, 14)
           bpp == b[17]
           n == (bpp + 7) \div 8
           top == b[18] >= 32
           org == (b[18] \div 16)
       IN IF w = 0 \/ h = 0 THEN Refuse
          ELSE IF b[3] \notin {2, 10} \/ b[2] # 0 \/ bpp \notin {15, 16, 24, 32} \/ org \notin {0, 2}
          THEN Other
          ELSE IF b[3] = 2 /\ (w > Len(b) \/ h > Len(b) \/ 18 + b[1] + w * h * n > Len(b)) THEN Refuse
          ELSE IF b[3] = 10 /\ (w > 130 * Len(b) \/ h > 130 * Len(b)) THEN Refuse
          ELSE IF b[3] = 10 /\ ((w \div 128) * h > Len(b)) THEN Refuse
          ELSE LET sc == IF b[3] = 2 THEN <<>> ELSE TgaScan(b, 18 + b[1], n, w * h)
                   st == IF sc = <<>> THEN "ok" ELSE sc[Len(sc)].t
                   at == IF b[3] = 2 THEN [i \in 1..(w * h) |-> 18 + b[1] + n * (i - 1)]
                         ELSE FlattenSeq([k \in 1..Len(sc) |-> sc[k].at])
               IN IF st = "end" THEN Refuse ELSE IF st = "over" THEN Other
                  ELSE LET lo == [k \in 1..(w * h) |->
                             LET y == (k - 1) \div w
                                 r == IF top THEN y ELSE h - 1 - y
                             IN TgaLo(b, at[r * w + ((k - 1) % w) + 1], n)]
                       IN IF n > 2 THEN Exact(w, h, lo)
                          ELSE Done(w, h, lo, [k \in 1..(w * h) |-> [c \in 1..4 |->
                                 IF c = 4 THEN 255 ELSE lo[k][c] + 7]])
-----------------------------------------------------------------------------
(* Netpbm PPM, plain (P3) or binary (P6), samples up to v.max; the samples   *)
(* are img.px[k][1..3]; tokens are separated by the strings of v.sep         *)
Digits(n) == IF n < 10 THEN <<48 + n>>
             ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>>
             ELSE IF n < 1000 THEN <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
             ELSE IF n < 10000 THEN <<48 + n \div 1000, 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
             ELSE <<48 + n \div 10000, 48 + ((n \div 1000) % 10), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Sample(img, k) == img.px[(k - 1) \div 3 + 1][((k - 1) % 3) + 1]
Ppm(img, v) ==
  LET n == 3 * img.w * img.h
  IN <<80, IF v.plain THEN 51 ELSE 54>> \o v.sep[1] \o Digits(img.w) \o v.sep[2]
     \o Digits(img.h) \o v.sep[3] \o Digits(v.max)
     \o (IF v.plain
         THEN v.sep[4] \o FlattenSeq([k \in 1..n |-> Digits(Sample(img, k)) \o
                (IF k = n THEN v.last ELSE v.gaps[1 + (k % Len(v.gaps))])])
         ELSE <<v.end>> \o
              (IF v.max < 256 THEN [k \in 1..n |-> Sample(img, k)]
               ELSE [k \in 1..(2 * n) |->
                 LET s == Sample(img, (k + 1) \div 2) IN IF k % 2 = 1 THEN s \div 256 ELSE s % 256]))
     \o v.tail
White == {9, 10, 11, 12, 13, 32}
Digit == 48..57
At(b, i) == IF i < Len(b) THEN b[i + 1] ELSE 256
RECURSIVE SkipLine(_, _), Skip(_, _), NumEnd(_, _), NumVal(_, _, _)
SkipLine(b, i) == IF At(b, i) \in {10, 13, 256} THEN i ELSE SkipLine(b, i + 1)
Skip(b, i) == IF At(b, i) \in White THEN Skip(b, i + 1)
              ELSE IF At(b, i) = 35 THEN Skip(b, SkipLine(b, i)) ELSE i
NumEnd(b, i) == IF At(b, i) \in Digit THEN NumEnd(b, i + 1) ELSE i
NumVal(b, i, j) == IF i = j THEN 0 ELSE 10 * NumVal(b, i, j - 1) + b[j] - 48
Val(b, i, j) == IF j - i > 8 THEN 100000000 ELSE NumVal(b, i, j)
Scale(s, m) == <<IF s >= m THEN 255 ELSE (255 * s) \div m,
                 IF s >= m THEN 255 ELSE (510 * s + m) \div (2 * m)>>
PpmPix(w, h, S(_), m) ==
  LET T == [k \in 1..(3 * w * h) |-> Scale(S(k), m)]
  IN Done(w, h, [k \in 1..(w * h) |-> <<T[3*k-2][1], T[3*k-1][1], T[3*k][1], 255>>],
                [k \in 1..(w * h) |-> <<T[3*k-2][2], T[3*k-1][2], T[3*k][2], 255>>])
(* end of the raster's decimal number starting at offset i *)
PpmPlain(b, i, w, h, m) ==
  LET n == Len(b)
      starts == SelectSeq([k \in 1..(n - i) |-> i + k - 1],
                  LAMBDA p : At(b, p) \in Digit /\ (p = i \/ At(b, p - 1) \in White))
      clean == \A p \in i..(n - 1) : At(b, p) \in Digit \cup White
      S(k) == Val(b, starts[k], NumEnd(b, starts[k]))
      most == 3 * w * h
  IN IF ~clean THEN (IF \A p \in i..(n - 1) : At(b, p) \in Digit \cup White \cup {35}
                     THEN Other ELSE [st |-> "junk"])
     ELSE IF Len(starts) < most THEN Refuse
     ELSE IF \E k \in 1..most : S(k) > m THEN Other
     ELSE PpmPix(w, h, S, m)
PpmDecode(b) ==
  IF Len(b) < 2 \/ b[1] # 80 \/ b[2] \notin {51, 54} THEN Refuse
  ELSE LET i1 == Skip(b, 2)
           j1 == NumEnd(b, i1)
           i2 == Skip(b, j1)
           j2 == NumEnd(b, i2)
           i3 == Skip(b, j2)
           j3 == NumEnd(b, i3)
           w == Val(b, i1, j1)
           h == Val(b, i2, j2)
           m == Val(b, i3, j3)
           n == Len(b)
       IN IF i1 = j1 \/ i2 = j2 \/ i3 = j3 THEN Refuse
          ELSE IF w = 0 \/ h = 0 \/ m = 0 THEN Refuse
          ELSE IF i1 = 2 \/ i2 = j1 \/ i3 = j2 THEN Other
          ELSE IF m > 65535 THEN Other
          ELSE IF w > n \/ h > n THEN Refuse
          ELSE IF b[2] = 51
               THEN IF At(b, j3) \notin White \cup {256} THEN Other
                    ELSE LET r == PpmPlain(b, j3, w, h, m) IN
                         IF r.st = "junk" THEN Other ELSE r
          ELSE IF At(b, j3) \notin White \cup {256} THEN Other
          ELSE LET k == IF m < 256 THEN 1 ELSE 2
                   S(q) == IF k = 1 THEN b[j3 + 1 + q] ELSE 256 * b[j3 + 2 * q] + b[j3 + 2 * q + 1]
               IN IF j3 + 1 + 3 * w * h * k > n THEN Refuse
                  ELSE IF \E q \in 1..(3 * w * h) : S(q) > m THEN Other
                  ELSE PpmPix(w, h, S, m)
-----------------------------------------------------------------------------
Encode(fmt, img, v) == CASE fmt = "bmp" -> Bmp(img, v)
                         [] fmt = "tga" -> Tga(img, v)
                         [] fmt = "ppm" -> Ppm(img, v)
Decode(fmt, b) == CASE fmt = "bmp" -> BmpDecode(b)
                    [] fmt = "tga" -> TgaDecode(b)
                    [] fmt = "ppm" -> PpmDecode(b)
(* what reading an encoded image owes, said without bytes *)
Owed(fmt, img, v) ==
  CASE fmt = "bmp" -> Exact(img.w, img.h, [k \in DOMAIN img.px |->
         IF v.bytes = 4 THEN img.px[k] ELSE [img.px[k] EXCEPT ![4] = 255]])
    [] fmt = "tga" ->
         IF v.bpp <= 16
         THEN Done(img.w, img.h,
                [k \in DOMAIN img.px |-> [c \in 1..4 |-> IF c = 4 THEN 255 ELSE (img.px[k][c] \div 8) * 8]],
                [k \in DOMAIN img.px |-> [c \in 1..4 |-> IF c = 4 THEN 255 ELSE (img.px[k][c] \div 8) * 8 + 7]])
         ELSE Exact(img.w, img.h, [k \in DOMAIN img.px |->
                IF v.bpp = 32 THEN img.px[k] ELSE [img.px[k] EXCEPT ![4] = 255]])
    [] fmt = "ppm" -> LET S(k) == Sample(img, k) IN PpmPix(img.w, img.h, S, v.max)
=============================================================================
