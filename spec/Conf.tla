---------------------------------- MODULE Conf ----------------------------------
(* What a scene file means.  The state is everything read so far; a step reads *)
(* one statement of a file found in folder `dir`; Result resolves the names    *)
(* once every file has been read.                                              *)
(* Numbers are thousandths.  A path is a sequence of components.  The files on *)
(* disk are a sequence of [path, t, ...], t one of "image", "scene", "obj",    *)
(* "folder", "junk".                                                           *)
EXTENDS Integers, Sequences
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
(* --- paths --- *)
Hop(p, c) == IF c \in {"", "."} THEN p ELSE IF c = ".." THEN (IF p = <<>> THEN p ELSE Front(p)) ELSE Append(p, c)
RECURSIVE Walk(_, _)
Walk(p, cs) == IF cs = <<>> THEN p ELSE Walk(Hop(p, Head(cs)), Tail(cs))
Resolve(dir, p) == Walk(IF p.abs THEN <<>> ELSE dir, p.parts)
Found(fs, p) == {i \in 1..Len(fs) : fs[i].path = p}
Kind(fs, p) == IF Found(fs, p) = {} THEN "none" ELSE fs[CHOOSE i \in Found(fs, p) : TRUE].t
File(fs, p) == fs[CHOOSE i \in Found(fs, p) : TRUE]
(* --- keys and values: the last occurrence of a key counts --- *)
RECURSIVE Value(_, _, _)
Value(items, key, dflt) == IF items = <<>> THEN dflt
                           ELSE IF Last(items)[1] = key THEN Last(items)[2] ELSE Value(Front(items), key, dflt)
Has(items, key) == \E i \in 1..Len(items) : items[i][1] = key
(* --- settings --- *)
Defaults == [out |-> "out.ppm", width |-> 800, height |-> 600, spp |-> 121, sampler |-> "stratified",
             filter |-> "mitchell", value0 |-> 330, value1 |-> 330, texture |-> "trilinear",
             camera |-> "perspective", position |-> <<0, 0, 0>>, target |-> <<0, 0, 1000>>, up |-> <<0, 1000, 0>>,
             fov |-> 55000]
RECURSIVE Apply(_, _)
Apply(set, items) == IF items = <<>> THEN set ELSE Apply([set EXCEPT ![Head(items)[1]] = Head(items)[2]], Tail(items))
(* the nearest square *)
RECURSIVE Root(_, _)
Root(n, r) == IF n <= r * r + r THEN r ELSE Root(n, r + 1)
Square(n) == LET r == Root(n, 0) IN r * r
Sane(set) ==
  LET w == IF set.width <= 0 THEN 800 ELSE set.width
      h == IF set.height <= 0 THEN 600 ELSE set.height
      n == IF set.spp <= 0 THEN 121 ELSE set.spp
      wide == 32 * ((w + 31) \div 32)
  IN [set EXCEPT !.width = wide,
                 (* in proportion, within a couple of pixels *)
                 !.height = IF wide = w THEN <<h, h>> ELSE <<(h * wide) \div w - 1, (h * wide + w - 1) \div w + 1>>,
                 !.spp = IF set.sampler = "stratified" THEN Square(n) ELSE n]
(* --- reading --- *)
Start == [set |-> Defaults, texs |-> <<>>, mats |-> <<>>, duals |-> <<>>, shapes |-> <<>>, worlds |-> <<>>, kids |-> <<>>]
Step(s, st, dir, top) ==
  LET here == [st |-> st, dir |-> dir]
  IN CASE st.k = "set" -> [s EXCEPT !.set = Apply(@, st.items)]
       [] st.k = "texture" -> [s EXCEPT !.texs = Append(@, here)]
       [] st.k = "material" -> [s EXCEPT !.mats = Append(@, here)]
       [] st.k = "dualmaterial" -> [s EXCEPT !.duals = Append(@, here)]
       [] st.k = "shape" -> [s EXCEPT !.shapes = Append(@, here)]
       [] st.k \in {"world", "light"} -> [s EXCEPT !.worlds = Append(@, here)]
       (* files included by included files are ignored *)
       [] st.k = "child" -> IF top THEN [s EXCEPT !.kids = Append(@, here)] ELSE s
RECURSIVE Steps(_, _, _, _)
Steps(s, sts, dir, top) == IF sts = <<>> THEN s ELSE Steps(Step(s, Head(sts), dir, top), Tail(sts), dir, top)
KidPath(h) == Resolve(h.dir, h.st.path)
RECURSIVE Kids(_, _, _)
Kids(s, kids, fs) ==
  IF kids = <<>> THEN s
  ELSE LET p == KidPath(Head(kids))
       IN Kids(IF Kind(fs, p) = "scene" THEN Steps(s, File(fs, p).sts, Front(p), FALSE) ELSE s, Tail(kids), fs)
Read(fs, main) == LET s == Steps(Start, File(fs, main).sts, Front(main), TRUE) IN Kids(s, s.kids, fs)
(* --- names --- *)
(* a library is a sequence of [name, ...]; the words of a report name what is wrong *)
In(lib, name) == \E i \in 1..Len(lib) : lib[i].name = name
Of(lib, name) == lib[CHOOSE i \in 1..Len(lib) : lib[i].name = name]
(* textures *)
NoTex == [file |-> <<>>, scale |-> <<1000, 1000>>, shift |-> <<0, 0>>]
TexDecl(h) == LET src == Resolve(h.dir, Value(h.st.items, "src", 0))
              IN [name |-> Value(h.st.items, "name", Last(src)), file |-> src,
                  scale |-> Value(h.st.items, "scale", <<1000, 1000>>), shift |-> Value(h.st.items, "shift", <<0, 0>>)]
RECURSIVE Textures(_, _, _)
Textures(r, ts, fs) ==
  IF ts = <<>> THEN r
  ELSE LET t == TexDecl(Head(ts))
       IN Textures(IF In(r.lib, t.name) THEN [r EXCEPT !.bad = @ \cup {t.name}]
                   ELSE IF Kind(fs, t.file) = "image" THEN [r EXCEPT !.lib = Append(@, t)]
                   ELSE [r EXCEPT !.bad = @ \cup {Last(t.file)}], Tail(ts), fs)
(* a string: the name of a texture or else the path of an image *)
TexRef(lib, fs, v, dir) ==
  IF In(lib, v.text) THEN [ok |-> TRUE, tex |-> [f \in {"file", "scale", "shift"} |-> Of(lib, v.text)[f]], bad |-> {}]
  ELSE LET p == Resolve(dir, v)
       IN IF Kind(fs, p) = "image" THEN [ok |-> TRUE, tex |-> [NoTex EXCEPT !.file = p], bad |-> {}]
          ELSE [ok |-> FALSE, tex |-> NoTex, bad |-> {Last(p)}]
MaskRef(lib, fs, m, dir) ==
  IF m = <<>> THEN [mask |-> [on |-> FALSE], bad |-> {}]
  ELSE LET r == TexRef(lib, fs, m[1], dir)
       IN [mask |-> IF r.ok THEN [on |-> TRUE, tex |-> r.tex, chn |-> m[2], inv |-> m[3]] ELSE [on |-> FALSE], bad |-> r.bad]
(* materials *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
(* the description of a material, with nothing left out *)
Surface(items) ==
  LET type == Value(items, "type", "matte")
      rx == Clamp(Value(items, "roughness", 0), 0, 1000)
      ry == Value(items, "anisotropy", rx)
      iso == ry = rx
      (* microfacets need some roughness *)
      mx == IF type = "glossy" \/ ~iso THEN Clamp(rx, 1, 1000) ELSE rx
  IN [type |-> type, rx |-> mx, ry |-> IF iso THEN mx ELSE Clamp(ry, 1, 1000), iso |-> iso,
      dist |-> IF iso THEN Value(items, "distribution", "beckmann") ELSE "ggx",
      ior |-> Value(items, "ior", <<1450, 0>>), element |-> Value(items, "element", "Au")]
ColourRef(lib, fs, items, key, dir) ==
  IF ~Has(items, key) THEN [c |-> [rgb |-> FALSE, tex |-> NoTex], bad |-> {}]
  ELSE LET v == Value(items, key, 0)
       IN IF v.rgb THEN [c |-> v, bad |-> {}]
          ELSE LET r == TexRef(lib, fs, v, dir) IN [c |-> [rgb |-> FALSE, tex |-> r.tex], bad |-> r.bad]
RECURSIVE Materials(_, _, _, _)
Materials(r, ms, texs, fs) ==
  IF ms = <<>> THEN r
  ELSE LET items == Head(ms).st.items
           name == Value(items, "name", "")
           d == ColourRef(texs, fs, items, "diffuse", Head(ms).dir)
           p == ColourRef(texs, fs, items, "specular", Head(ms).dir)
       IN Materials(IF In(r.lib, name) THEN [r EXCEPT !.bad = @ \cup {name}]
                    ELSE [lib |-> Append(r.lib, [name |-> name, dual |-> FALSE, surface |-> Surface(items), diffuse |-> d.c, specular |-> p.c]),
                          bad |-> r.bad \cup d.bad \cup p.bad], Tail(ms), texs, fs)
RECURSIVE Duals(_, _, _, _)
Duals(r, ds, texs, fs) ==
  IF ds = <<>> THEN r
  ELSE LET items == Head(ds).st.items
           name == Value(items, "name", "")
           a == Value(items, "first", "")
           b == Value(items, "second", "")
           m == MaskRef(texs, fs, Value(items, "mask", <<>>), Head(ds).dir)
           Pick(x) == IF In(r.lib, x) THEN x ELSE "Default"
       IN Duals(IF In(r.lib, name) THEN [r EXCEPT !.bad = @ \cup {name}]
                ELSE [lib |-> Append(r.lib, [name |-> name, dual |-> TRUE, first |-> Pick(a), second |-> Pick(b), mask |-> m.mask]),
                      bad |-> r.bad \cup m.bad \cup {x \in {a, b} : x # "" /\ ~In(r.lib, x)}], Tail(ds), texs, fs)
(* meshes: a mesh of an obj file is [name, kind, var, mats], mats one per face, "" before any *)
Named(lib, x) == IF x = "" \/ ~In(lib, x) THEN "Default" ELSE x
RECURSIVE Meshes(_, _, _)
Meshes(r, ms, mats) ==
  IF ms = <<>> THEN r
  ELSE LET m == Head(ms)
           wrong == {m.mats[i] : i \in {j \in 1..Len(m.mats) : m.mats[j] # "" /\ ~In(mats, m.mats[j])}}
       IN Meshes(IF In(r.lib, m.name) THEN [r EXCEPT !.bad = @ \cup {m.name} \cup wrong]
                 ELSE [lib |-> Append(r.lib, [m EXCEPT !.mats = [i \in 1..Len(m.mats) |-> Named(mats, m.mats[i])]]),
                       bad |-> r.bad \cup wrong], Tail(ms), mats)
RECURSIVE Shapes(_, _, _, _)
Shapes(r, ss, mats, fs) ==
  IF ss = <<>> THEN r
  ELSE LET p == Resolve(Head(ss).dir, Head(ss).st.path)
       IN Shapes(IF Kind(fs, p) = "obj" THEN Meshes(r, File(fs, p).meshes, mats) ELSE [r EXCEPT !.bad = @ \cup {Last(p)}],
                 Tail(ss), mats, fs)
(* objects *)
RECURSIVE Objects(_, _, _, _, _, _)
Objects(r, ws, shapes, mats, texs, fs) ==
  IF ws = <<>> THEN r
  ELSE LET h == Head(ws)
           items == h.st.items
           name == Value(items, "name", "")
           ball == name = "Sphere"
           light == h.st.k = "light"
           mat == Value(items, "material", "")
           m == MaskRef(texs, fs, Value(items, "mask", <<>>), h.dir)
           own == IF ball THEN <<"Default">> ELSE Of(shapes, name).mats
           o == [mesh |-> IF ball THEN [name |-> "Sphere", kind |-> "ball", var |-> 0] ELSE Of(shapes, name),
                 light |-> light, mask |-> m.mask,
                 mats |-> IF light THEN [i \in 1..Len(own) |-> "Default"]
                          ELSE IF mat = "" THEN own ELSE [i \in 1..Len(own) |-> Named(mats, mat)],
                 temp |-> Value(items, "temperature", -1), color |-> Value(items, "color", <<255, 255, 255>>),
                 position |-> Value(items, "position", <<0, 0, 0>>), rotation |-> Value(items, "rotation", <<0, 0, 0>>),
                 scale |-> Value(items, "scale", <<1000, 1000, 1000>>)]
       IN Objects(IF ~ball /\ ~In(shapes, name) THEN [r EXCEPT !.bad = @ \cup {name}]
                  ELSE [lib |-> Append(r.lib, o),
                        bad |-> r.bad \cup m.bad \cup (IF ~light /\ mat # "" /\ ~In(mats, mat) THEN {mat} ELSE {})],
                  Tail(ws), shapes, mats, texs, fs)
Empty == [lib |-> <<>>, bad |-> {}]
Result(fs, main) ==
  LET s == Read(fs, main)
      t == Textures(Empty, s.texs, fs)
      m0 == Materials([lib |-> <<[name |-> "Default", dual |-> FALSE]>>, bad |-> {}], s.mats, t.lib, fs)
      m == Duals(m0, s.duals, t.lib, fs)
      g == Shapes(Empty, s.shapes, m.lib, fs)
      o == Objects(Empty, s.worlds, g.lib, m.lib, t.lib, fs)
  IN [set |-> Sane(s.set), texs |-> t.lib, mats |-> Tail(m.lib), objects |-> o.lib,
      bad |-> t.bad \cup m.bad \cup g.bad \cup o.bad
              \cup {Last(KidPath(s.kids[i])) : i \in {j \in 1..Len(s.kids) : Kind(fs, KidPath(s.kids[j])) # "scene"}}]
=============================================================================
