------------------------------- MODULE ImgBack -------------------------------
(* Judges recorded files: each must decode to the picture it was made from   *)
(* and be laid out as its format says, to the last byte.                     *)
EXTENDS Image, TLC, Json
VARIABLES i
Rec == JsonDeserialize("files.json")
Rgb(px) == [k \in 1..Len(px) |-> SubSeq(px[k], 1, 3)]
U32(b, o) == U24(b, o)
Layout(fmt, b, r) ==
  CASE fmt = "bmp" -> /\ ~Big(b, 2) /\ U24(b, 2) = Len(b)
                      /\ U16(b, 26) = 1
                      /\ Len(b) = U24(b, 10) + RowLen(r.w, U16(b, 28) \div 8) * r.h
    [] fmt = "tga" -> b[3] = 10 \/ Len(b) - (18 + b[1] + r.w * r.h * TgaBytes([bpp |-> b[17]])) \in {0, 26}
    [] fmt = "ppm" -> b[2] = 51 \/
         LET j == NumEnd(b, Skip(b, NumEnd(b, Skip(b, NumEnd(b, Skip(b, 2))))))
         IN Len(b) = j + 1 + 3 * r.w * r.h * (IF r.max < 256 THEN 1 ELSE 2)
PpmMax(fmt, b) == IF fmt # "ppm" THEN 0
                  ELSE LET p == Skip(b, NumEnd(b, Skip(b, NumEnd(b, Skip(b, 2))))) IN Val(b, p, NumEnd(b, p))
Verdict(f) ==
  LET r == Decode(f.fmt, f.b)
  IN IF r.st # "ok" THEN "not a complete " \o f.fmt
     ELSE IF r.w # f.w \/ r.h # f.h THEN "wrong size"
     ELSE IF Rgb(r.lo) # Rgb(f.px) \/ Rgb(r.hi) # Rgb(f.px) THEN "wrong colours"
     ELSE IF ~Layout(f.fmt, f.b, [w |-> r.w, h |-> r.h, max |-> PpmMax(f.fmt, f.b)]) THEN "length or fields not those of the format"
     ELSE "ok"
Init == i \in 1..Len(Rec)
Next == UNCHANGED i
Emit == PrintT("@@" \o ToJson([i |-> i, v |-> Verdict(Rec[i])]))
=============================================================================
