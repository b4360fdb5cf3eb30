-------------------------------- MODULE Path --------------------------------
(* Lexical path resolution.  A path is a sequence of components, a component *)
(* a pair <<name, extension>>; the root is the empty sequence.               *)
EXTENDS Naturals, Sequences
Up(p) == IF p = <<>> THEN p ELSE SubSeq(p, 1, Len(p) - 1)
Step(p, t) == CASE t[1] \in {"", "."} -> p
                [] t[1] = ".." -> Up(p)
                [] OTHER -> Append(p, t)
RECURSIVE Walk(_, _)
Walk(p, ts) == IF ts = <<>> THEN p ELSE Walk(Step(p, Head(ts)), Tail(ts))
Name(p) == IF p = <<>> THEN "/" ELSE p[Len(p)][1]
Ext(p) == IF p = <<>> THEN "" ELSE p[Len(p)][2]
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
=============================================================================
