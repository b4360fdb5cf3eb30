---------------------------------- MODULE Obj ----------------------------------
(* What a Wavefront OBJ file means.  A file is read one line after the other; *)
(* the state collects positions, texture coordinates and normals of the whole *)
(* file, the material in effect, and the object being described.  Layout      *)
(* (blanks, line endings, the final newline) is no part of the meaning.       *)
(*                                                                            *)
(* Indices are 1-based, or relative to the number of elements described so    *)
(* far when negative.  A face with an index designating nothing, or with less *)
(* than three vertices, is no face of any object.  Groups name the objects of *)
(* files that do not have "o" lines in effect.                                *)
EXTENDS Integers, Sequences
CONSTANTS Known  \* materials of the library
Default == "Default"
Unnamed == "Unnamed"
HasT(form) == form \in {2, 4}
HasN(form) == form \in {3, 4}
Start == [v |-> <<>>, t |-> <<>>, n |-> <<>>, name |-> "", mode |-> "none", mat |-> Default,
          faces |-> <<>>, out |-> <<>>, bad |-> 0]
(* 0: designates nothing *)
Resolve(i, n) == IF i > 0 /\ i <= n THEN i ELSE IF i < 0 /\ -i <= n THEN n + 1 + i ELSE 0
Flush(s) == IF s.faces = <<>> THEN s
            ELSE [s EXCEPT !.out = Append(@, [name |-> IF s.name = "" THEN Unnamed ELSE s.name, faces |-> s.faces]),
                           !.faces = <<>>]
Corner(s, x, form) == <<Resolve(x[1], Len(s.v)),
                        IF HasT(form) THEN Resolve(x[2], Len(s.t)) ELSE -1,
                        IF HasN(form) THEN Resolve(x[3], Len(s.n)) ELSE -1>>
FaceOf(s, l) == [k \in 1..Len(l.vs) |-> Corner(s, l.vs[k], l.form)]
Wrong(s, l) == \E k \in 1..Len(l.vs) : \E j \in 1..3 : Corner(s, l.vs[k], l.form)[j] = 0
Step(s, l) ==
  CASE l.k = "v" -> [s EXCEPT !.v = Append(@, l.p)]
    [] l.k = "vt" -> [s EXCEPT !.t = Append(@, l.p)]
    [] l.k = "vn" -> [s EXCEPT !.n = Append(@, l.p)]
    [] l.k = "usemtl" -> [s EXCEPT !.mat = IF l.name \in Known THEN l.name ELSE Default]
    [] l.k = "o" -> [Flush(s) EXCEPT !.name = l.name, !.mode = "o"]
    [] l.k = "g" -> IF s.mode = "o" THEN s ELSE [Flush(s) EXCEPT !.name = l.name, !.mode = "g"]
    [] l.k = "f" -> IF Wrong(s, l) THEN [s EXCEPT !.bad = @ + 1]
                    ELSE IF Len(l.vs) < 3 THEN s
                    ELSE [s EXCEPT !.faces = Append(@, [vs |-> FaceOf(s, l), mat |-> s.mat])]
    [] OTHER -> s
RECURSIVE Run(_, _, _)
Run(s, ls, k) == IF k > Len(ls) THEN s ELSE Run(Step(s, ls[k]), ls, k + 1)
Meshes(s) == Flush(s).out
================================================================================
