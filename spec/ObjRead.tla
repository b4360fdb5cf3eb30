------------------------------- MODULE ObjRead -------------------------------
(* The reader of OBJ files: a buffer refilled when it has been consumed, a    *)
(* tokenizer, and lines ended by LF, CR LF, CR or the end of the file.  For   *)
(* every file over {x, blank, LF, CR} and every size of the buffer the lines  *)
(* of tokens are those of the whole file, and reading ends.                   *)
EXTENDS Naturals, Sequences
CONSTANTS MaxLen, Sizes
VARIABLES file, size, buf, pos, off, tok, line, out, lastCR, stop
vars == <<file, size, buf, pos, off, tok, line, out, lastCR, stop>>
Alpha == {"x", "b", "n", "r"}
(* --- the meaning: lines of tokens (lengths) of a file --- *)
RECURSIVE Split(_, _, _, _, _)
Close(t, l) == IF t = 0 THEN l ELSE Append(l, t)
Split(f, k, t, l, o) ==
  IF k > Len(f) THEN IF t = 0 /\ l = <<>> THEN o ELSE Append(o, Close(t, l))
  ELSE IF f[k] = "x" THEN Split(f, k + 1, t + 1, l, o)
  ELSE IF f[k] = "b" THEN Split(f, k + 1, 0, Close(t, l), o)
  ELSE Split(f, IF f[k] = "r" /\ k < Len(f) /\ f[k + 1] = "n" THEN k + 2 ELSE k + 1, 0, <<>>, Append(o, Close(t, l)))
Meaning(f) == Split(f, 1, 0, <<>>, <<>>)
(* --- the reader --- *)
Files == UNION {[1..n -> Alpha] : n \in 0..MaxLen}
Init == /\ file \in Files /\ size \in Sizes
        /\ buf = <<>> /\ pos = 1 /\ off = 0 /\ tok = 0 /\ line = <<>> /\ out = <<>> /\ lastCR = FALSE /\ stop = FALSE
Refill == /\ ~stop /\ pos > Len(buf) /\ off < Len(file)
          /\ LET n == IF Len(file) - off < size THEN Len(file) - off ELSE size
             IN buf' = SubSeq(file, off + 1, off + n) /\ off' = off + n
          /\ pos' = 1 /\ UNCHANGED <<file, size, tok, line, out, lastCR, stop>>
Char == /\ ~stop /\ pos <= Len(buf)
        /\ pos' = pos + 1
        /\ LET c == buf[pos]
           IN CASE c = "x" -> tok' = tok + 1 /\ lastCR' = FALSE /\ UNCHANGED <<line, out>>
                [] c = "b" -> tok' = 0 /\ line' = Close(tok, line) /\ lastCR' = FALSE /\ UNCHANGED out
                [] c = "r" -> tok' = 0 /\ line' = <<>> /\ out' = Append(out, Close(tok, line)) /\ lastCR' = TRUE
                [] c = "n" -> /\ tok' = 0 /\ line' = <<>> /\ lastCR' = FALSE
                              /\ out' = IF lastCR THEN out ELSE Append(out, Close(tok, line))
        /\ UNCHANGED <<file, size, buf, off, stop>>
Eof == /\ ~stop /\ pos > Len(buf) /\ off = Len(file)
       /\ out' = IF tok = 0 /\ line = <<>> THEN out ELSE Append(out, Close(tok, line))
       /\ stop' = TRUE /\ UNCHANGED <<file, size, buf, pos, off, tok, line, lastCR>>
Next == Refill \/ Char \/ Eof
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* nothing is lost at the end of a buffer *)
Prefix == buf = SubSeq(file, off - Len(buf) + 1, off) /\ pos <= Len(buf) + 1
Lines == stop => out = Meaning(file)
Ends == <>stop
===============================================================================
