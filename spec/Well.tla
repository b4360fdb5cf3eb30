-------------------------------- MODULE Well --------------------------------
(* WELL1024a (Panneton, L'Ecuyer, Matsumoto) on words of bits, least first.  *)
EXTENDS Integers, Sequences
Bits == 1..32
Zero == [b \in Bits |-> 0]
Xor(a, b) == [i \in Bits |-> (a[i] + b[i]) % 2]
Shl(a, n) == [i \in Bits |-> IF i > n THEN a[i - n] ELSE 0]
Shr(a, n) == [i \in Bits |-> IF i + n <= 32 THEN a[i + n] ELSE 0]
(* a state: [s : words 0..31, i : where the next word goes] *)
At(w, k) == w.s[(w.i + k) % 32]
Pull(w) ==
  LET z0 == At(w, 31)
      z1 == Xor(At(w, 0), Xor(At(w, 3), Shr(At(w, 3), 8)))
      z2 == Xor(Xor(At(w, 24), Shl(At(w, 24), 19)), Xor(At(w, 10), Shl(At(w, 10), 14)))
      v0 == Xor(Xor(Xor(z0, Shl(z0, 11)), Xor(z1, Shl(z1, 7))), Xor(z2, Shl(z2, 13)))
      j == (w.i + 31) % 32
  IN [s |-> [w.s EXCEPT ![w.i] = Xor(z1, z2), ![j] = v0], i |-> j]
RECURSIVE Half(_, _, _)
Half(b, from, n) == IF n = 0 THEN 0 ELSE b[from] + 2 * Half(b, from + 1, n - 1)
(* the number drawn, over 2^32: its upper and lower half *)
Drawn(w) == <<Half(w.s[w.i], 17, 16), Half(w.s[w.i], 1, 16)>>
Word(hi, lo) == [i \in Bits |-> IF i <= 16 THEN (lo \div (2 ^ (i - 1))) % 2 ELSE (hi \div (2 ^ (i - 17))) % 2]
=============================================================================
