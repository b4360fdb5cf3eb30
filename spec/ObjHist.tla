-------------------------------- MODULE ObjHist --------------------------------
(* Writes an OBJ file, one line at a time: vertices of convex polygons, kept  *)
(* apart from each other so that a ray meets one of them only, in any order;  *)
(* faces over them with every form of index; objects, groups, materials;      *)
(* lines without a meaning; every line in some layout.                        *)
EXTENDS Obj, TLC, Json, FiniteSets
CONSTANTS Lines, Bad, MaxTris, Mtls, Many
VARIABLES s, lines, cells, done, used, tris, names, todo
vars == <<s, lines, cells, done, used, tris, names, todo>>
Rnd(S) == RandomElement(S)
(* convex outline, in eighths; 2, 3 and 4 are aligned *)
Outline == <<<<24, 8>>, <<8, 24>>, <<0, 24>>, <<-8, 24>>, <<-24, 8>>, <<-24, -8>>, <<-8, -24>>, <<8, -24>>, <<24, -8>>>>
Corners == 1..9
(* where a corner of a cell is: every cell has its own plane *)
At(c, k, sl) ==
  LET x == Outline[k][1]
      y == Outline[k][2]
      z == sl[1] * (x \div 8) + sl[2] * (y \div 8)
  IN IF sl[3] = 0 THEN <<80 * c + x, y, z>> ELSE IF sl[3] = 1 THEN <<80 * c + y, z, x>> ELSE <<80 * c + x, z, 800 + y>>
Slopes == {-5, -2, 0, 0, 3, 7}
NoCell == [on |-> <<>>, ix |-> [k \in Corners |-> 0], sl |-> <<0, 0, 0>>]
MaxCell == 3 * Lines + Many
Layout(k) == [lead |-> Rnd({0, 0, 0, 1, 2 + 0 * k}), sep |-> Rnd(0..(7 + 0 * k)), tail |-> Rnd({0, 0, 0, 1, 2, 3 + 0 * k}),
              eol |-> Rnd(0..(9 + 0 * k)), num |-> Rnd(0..(9 + 0 * k))]
Init == /\ s = Start /\ lines = <<>> /\ cells = [c \in 1..MaxCell |-> NoCell] /\ done = {} /\ used = 0 /\ tris = 0 /\ names = 0
        /\ todo = Lines
Put(l) == \E y \in {Layout(todo)} : lines' = Append(lines, [l |-> l, y |-> y]) /\ s' = Step(s, l)
Open == LET lo == CHOOSE c \in 1..MaxCell : c \notin done /\ \A d \in 1..(c - 1) : d \in done
        IN {c \in lo..(lo + 2) : c \in 1..MaxCell /\ c \notin done /\ Len(cells[c].on) < 9}
Vertex ==
  /\ Open # {}
  /\ \E c \in {Rnd(Open)} :
     \E k \in {Rnd({j \in Corners : cells[c].ix[j] = 0})},
        sl \in {IF cells[c].on = <<>> THEN <<Rnd(Slopes), Rnd(Slopes), Rnd(0..(2 + 0 * todo))>> ELSE cells[c].sl} :
       /\ Put([k |-> "v", p |-> At(c, k, sl)])
       /\ cells' = [cells EXCEPT ![c] = [on |-> Append(@.on, k), ix |-> [@.ix EXCEPT ![k] = Len(s.v) + 1], sl |-> sl]]
  /\ UNCHANGED <<done, used, tris, names>>
Texture == /\ \E u \in {Rnd(-8..(16 + 0 * todo))}, w \in {Rnd(0..(16 + 0 * todo))} : Put([k |-> "vt", p |-> <<u, w>>])
           /\ UNCHANGED <<cells, done, used, tris, names>>
NormalLine == /\ \E a \in {Rnd({-8, -5, 5, 8})}, b \in {Rnd(-8..(8 + 0 * todo))}, c \in {Rnd(-8..(8 + 0 * todo))}, d \in {Rnd(0..(2 + 0 * todo))} :
                   Put([k |-> "vn", p |-> IF d = 0 THEN <<a, b, c>> ELSE IF d = 1 THEN <<b, a, c>> ELSE <<c, b, a>>])
              /\ UNCHANGED <<cells, done, used, tris, names>>
(* --- faces --- *)
Fit(c) == {F \in SUBSET {cells[c].on[j] : j \in 1..Len(cells[c].on)} : Cardinality(F) >= 3 /\ F # {2, 3, 4}}
Ready == {c \in 1..MaxCell : c \notin done /\ Len(cells[c].on) > 2 /\ {cells[c].on[j] : j \in 1..Len(cells[c].on)} # {2, 3, 4}}
RECURSIVE Sorted(_)
Sorted(F) == IF F = {} THEN <<>> ELSE LET m == CHOOSE x \in F : \A y \in F : x <= y IN <<m>> \o Sorted(F \ {m})
Turned(q, r, back) == LET n == Len(q)
                      IN [j \in 1..n |-> LET i == ((j + r) % n) + 1 IN q[IF back THEN n + 1 - i ELSE i]]
(* absolute or relative *)
Ref(i, n, k) == IF Rnd(1..(3 + 0 * k)) = 1 THEN i - n - 1 ELSE i
Form(k) == LET fs == {1} \cup (IF s.t # <<>> THEN {2} ELSE {}) \cup (IF s.n # <<>> THEN {3} ELSE {})
                     \cup (IF s.t # <<>> /\ s.n # <<>> THEN {4} ELSE {}) IN Rnd({f \in fs : f > 0 * k})
Pick(n, k) == IF n = 0 THEN 0 ELSE Ref(Rnd(1..(n + 0 * k)), n, k)
FaceLine(ix, form) ==
  [k |-> "f", form |-> form, raw |-> <<0, 0, "", 0>>,
   vs |-> [j \in 1..Len(ix) |-> <<Ref(ix[j], Len(s.v), j), IF HasT(form) THEN Pick(Len(s.t), j) ELSE 0,
                                  IF HasN(form) THEN Pick(Len(s.n), j) ELSE 0>>]]
(* breaks an index of a face *)
Spoilt(l, k) ==
  LET p == Rnd(1..(Len(l.vs) + 0 * k))
      cs == {1} \cup (IF HasT(l.form) THEN {2} ELSE {}) \cup (IF HasN(l.form) THEN {3} ELSE {})
      c == Rnd({x \in cs : x > 0 * k})
      n == IF c = 1 THEN Len(s.v) ELSE IF c = 2 THEN Len(s.t) ELSE Len(s.n)
      w == Rnd(1..(8 + 0 * k))
      lit == IF w = 1 THEN n + 1 ELSE IF w = 2 THEN n + 1 + Rnd(0..100) ELSE IF w = 3 THEN -(n + 1)
             ELSE IF w = 4 THEN -(n + 1) - Rnd(0..100) ELSE 0
  IN [l EXCEPT !.vs = [l.vs EXCEPT ![p] = [@ EXCEPT ![c] = lit]],
               !.raw = <<p, c, IF w <= 4 THEN "" ELSE <<"zero", "wrap", "huge", "text">>[w - 4], l.vs[p][c]>>]
Face ==
  /\ Ready # {}
  /\ \E c \in {Rnd(Ready)} :
     \E m \in {Rnd({3, 3, 4, 5, 6})} :
     \E F \in {LET small == {G \in Fit(c) : Cardinality(G) = m} IN IF small = {} THEN Rnd(Fit(c)) ELSE Rnd(small)} :
     \E q \in {Turned(Sorted(F), Rnd(0..(8 + 0 * todo)), Rnd(1..(3 + 0 * todo)) = 1)} :
     \E l \in {FaceLine([j \in 1..Len(q) |-> cells[c].ix[q[j]]], Form(todo))} :
     \E spoil \in {Bad /\ Rnd(1..(3 + 0 * todo)) = 1} :
     \E l2 \in {IF spoil THEN Spoilt(l, todo) ELSE l} :
       /\ tris + Cardinality(F) - 2 <= MaxTris
       /\ Put(l2)
       /\ tris' = IF spoil THEN tris ELSE tris + Cardinality(F) - 2
       /\ done' = IF spoil THEN done ELSE done \cup {c}
  /\ UNCHANGED <<cells, used, names>>
(* no face: less than three vertices *)
Short ==
  /\ Bad /\ Len(s.v) > 0
  /\ \E n \in {Rnd(0..(2 + 0 * todo))} :
     \E l \in {FaceLine([j \in 1..n |-> Rnd(1..(Len(s.v) + 0 * j))], 1)} : Put(l)
  /\ UNCHANGED <<cells, done, used, tris, names>>
(* --- the others --- *)
Name(k) == <<"n", "Cube.0", "o", "v_", "#", "f/", "L", "g">>[Rnd(1..(8 + 0 * k))] \o ToString(names)
ObjLine == /\ \E k \in {Rnd({"o", "o", "g"})}, nm \in {Name(todo)} : Put([k |-> k, name |-> nm])
           /\ names' = names + 1 /\ UNCHANGED <<cells, done, used, tris>>
Material == /\ \E m \in {Rnd(Mtls)} : Put([k |-> "usemtl", name |-> m])
            /\ UNCHANGED <<cells, done, used, tris, names>>
Noise == /\ \E k \in {Rnd({"blank", "note", "s", "other"})}, w \in {Rnd(0..(11 + 0 * todo))} : Put([k |-> k, w |-> w])
         /\ UNCHANGED <<cells, done, used, tris, names>>
Or(A, B) == IF ENABLED A THEN A ELSE B
Next ==
  \/ /\ todo > 0 /\ Many = 0
     /\ todo' = todo - 1
     /\ \E r \in {Rnd(1..(100 + 0 * todo))} :
          IF r <= 46 /\ Open # {} THEN Vertex
          ELSE IF r <= 70 /\ Ready # {} /\ tris < MaxTris - 9 THEN Face
          ELSE IF r <= 78 THEN Texture
          ELSE IF r <= 84 THEN NormalLine
          ELSE IF r <= 89 THEN ObjLine
          ELSE IF r <= 93 THEN Material
          ELSE IF r <= 95 /\ Bad /\ Len(s.v) > 0 THEN Short
          ELSE Noise
  \/ (* many materials: a triangle each *)
     /\ todo > 0 /\ Many > 0
     /\ todo' = 0
     /\ \E ls \in {[j \in 1..(5 * Many) |->
            LET c == (j + 4) \div 5
                i == (j - 1) % 5
            IN [y |-> Layout(j),
                l |-> IF i < 3 THEN [k |-> "v", p |-> At(c, <<1, 4, 7>>[i + 1], <<2, 3, 0>>)]
                      ELSE IF i = 3 THEN [k |-> "usemtl", name |-> "M" \o ToString(c)]
                      ELSE [k |-> "f", form |-> 1, raw |-> <<0, 0, "", 0>>, vs |-> <<<<-3, 0, 0>>, <<-2, 0, 0>>, <<-1, 0, 0>>>>]]]} :
          /\ lines' = ls
          /\ s' = Run(s, [j \in 1..Len(ls) |-> ls[j].l], 1)
     /\ UNCHANGED <<cells, done, used, tris, names>>
(* the meaning is that of the lines *)
Meant == todo = 0 => s = Run(Start, [j \in 1..Len(lines) |-> lines[j].l], 1)
(* every face of every mesh designates existing data *)
Existing == \A m \in 1..Len(Meshes(s)) : \A f \in 1..Len(Meshes(s)[m].faces) :
  \A k \in 1..Len(Meshes(s)[m].faces[f].vs) :
    LET x == Meshes(s)[m].faces[f].vs[k]
    IN x[1] \in 1..Len(s.v) /\ x[2] \in {-1} \cup 1..Len(s.t) /\ x[3] \in {-1} \cup 1..Len(s.n)
Emit == todo = 0 => PrintT("@@" \o ToJson([lines |-> lines, meshes |-> Meshes(s), bad |-> s.bad,
                                            v |-> s.v, t |-> s.t, n |-> s.n]))
================================================================================
