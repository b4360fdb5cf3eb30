-------------------------------- MODULE ConfHist --------------------------------
(* Writes a scene: folders with images and meshes of the same names, a main     *)
(* file, the files it includes, one statement at a time in any of them; names   *)
(* that are declared anywhere, twice or never; paths of every form.             *)
EXTENDS Conf, TLC, Json, FiniteSets
CONSTANTS Lines, MaxObj, MaxKids, Trouble, W  \* W: weights of the statements
VARIABLES fs, main, kids, objs, todo, stage
vars == <<fs, main, kids, objs, todo, stage>>
R(S, k) == RandomElement({x \in S : k >= 0})
One(n, k) == R(1..n, k) = 1
Folders == {<<"m">>, <<"m", "a">>, <<"m", "a", "b">>, <<"m", "c d">>, <<"x">>}
Images == {"w.bmp", "v.bmp"}
TexNames == {"Wall", "w.bmp", "T1", "a tex", "v.bmp"}
MatNames == {"Red", "Green", "Blue", "Shiny", "m 5"}
MixNames == {"Mix", "Mix2", "Red"}
MeshNames == {"Box", "Tri", "Pyr", "box.1"}
(* --- disk --- *)
(* a material stays in effect until the next one, names are single words *)
Words == (MatNames \cup MixNames) \ {"m 5"}
ObjMesh(k, first) ==
  LET kind == R({"tri", "quad", "pyr"}, k)
      n == CASE kind = "tri" -> 1 [] kind = "quad" -> 2 [] kind = "pyr" -> 4
      a == R(Words \cup (IF first THEN {""} ELSE {}), k)
      b == R(Words \cup {IF One(5 - 4 * Trouble, k) THEN "Rusty" ELSE "Blue"}, k)
      cut == R(0..n, k)
  IN [name |-> R(MeshNames, k), kind |-> kind, var |-> R(0..7, k), mats |-> [i \in 1..n |-> IF i <= cut THEN a ELSE b]]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Disk(k) ==
  LET imgs == {[path |-> Append(d, n), t |-> "image"] : d \in {e \in Folders : One(3, k) = FALSE}, n \in Images}
      obj == {[path |-> Append(d, n), t |-> "obj", meshes |-> <<>>] : d \in {e \in Folders : One(2, k)}, n \in {"o.obj", "p.obj"}}
      dirs == {[path |-> Append(d, n), t |-> "folder"] : d \in {<<"m">>, <<"m", "a">>}, n \in {m \in {"d.bmp", "d.obj", "d.txt"} : One(2, k)}}
      junk == {[path |-> Append(d, "o.txt"), t |-> "junk"] : d \in {<<"m">>}}
  IN SeqOf(imgs) \o SeqOf(obj) \o SeqOf(dirs) \o SeqOf(junk)
KidName(i) == <<"k1.txt", "k2.txt", "k3.txt", "nested.txt">>[i]
Scene(p) == [path |-> p, t |-> "scene", sts |-> <<>>]
Init == /\ fs = <<>> /\ main = <<>> /\ kids = <<>> /\ objs = 0 /\ todo = Lines /\ stage = "disk"
Begin ==
  /\ stage = "disk"
  /\ \E d \in {Disk(todo)} :
     \E n \in {R(0..MaxKids, todo)} :
     \E ks \in {[i \in 1..n |-> Append(R(Folders, todo), KidName(i))]} :
     \E nest \in {Append(R(Folders, todo), KidName(4))} :
     \E m \in {Append(R({<<"m">>, <<"m">>, <<"m", "a">>, <<"x">>}, todo), "main.txt")} :
       /\ main' = m /\ kids' = ks
       /\ fs' = [i \in 1..Len(d) |-> IF d[i].t = "obj" THEN [d[i] EXCEPT !.meshes = [j \in 1..R(1..3, todo + i) |-> ObjMesh(todo + j, j = 1)]] ELSE d[i]]
                \o <<Scene(m)>> \o [i \in 1..n |-> Scene(ks[i])] \o (IF n > 0 THEN <<Scene(nest)>> ELSE <<>>)
  /\ stage' = "kids" /\ UNCHANGED <<objs, todo>>
Scenes == {i \in 1..Len(fs) : fs[i].t = "scene"}
MainIx == CHOOSE i \in Scenes : fs[i].path = main
Dir(i) == Front(fs[i].path)
(* --- paths --- *)
RECURSIVE Common(_, _)
Common(a, b) == IF a = <<>> \/ b = <<>> \/ Head(a) # Head(b) THEN 0 ELSE 1 + Common(Tail(a), Tail(b))
Rel(from, to) == LET n == Common(from, to)
                 IN [i \in 1..(Len(from) - n) |-> ".."] \o SubSeq(to, n + 1, Len(to))
Detour(ps, k) ==
  LET at == R(1..Len(ps), k)
      x == CASE One(4, k) -> <<".">> [] One(3, k) -> <<"z", "..">> [] One(2, k) -> <<"a", "c", "..", "..">> [] OTHER -> <<>>
  IN SubSeq(ps, 1, at - 1) \o x \o SubSeq(ps, at, Len(ps))
Gap(ps, k) == IF Len(ps) < 2 \/ ~One(4, k) THEN ps
              ELSE LET at == R(2..Len(ps), k) IN SubSeq(ps, 1, at - 1) \o <<"">> \o SubSeq(ps, at, Len(ps))
RECURSIVE Join(_, _)
Join(ps, sep) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o sep \o Join(Tail(ps), sep)
(* separators of both kinds in one path *)
RECURSIVE Mixed(_, _)
Mixed(ps, k) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o (IF One(2, k + 7 * Len(ps)) THEN "/" ELSE "\\") \o Mixed(Tail(ps), k)
Spelled(ps, k) == IF One(3, k) THEN Join(ps, "\\") ELSE IF One(3, k + 1) THEN Mixed(ps, k) ELSE Join(ps, "/")
PathTo(from, to, k) ==
  LET abs == One(4, k)
      ps == Gap(IF One(2, k) THEN Detour(IF abs THEN to ELSE Rel(from, to), k) ELSE IF abs THEN to ELSE Rel(from, to), k)
  IN [rgb |-> FALSE, abs |-> abs, parts |-> ps, text |-> (IF abs THEN "@/" ELSE "") \o Spelled(ps, k)]
Missing(k) == Append(R(Folders \cup {<<"m", "gone">>}, k), R({"w.bmp", "v.bmp", "o.obj", "p.obj", "d.obj", "d.bmp", "d.txt", "lost.bmp", "lost.obj", "o.txt", "k9.txt"}, k))
Ends(p, e) == CASE e = ".bmp" -> Last(p) \in {"w.bmp", "v.bmp", "d.bmp", "lost.bmp"}
                [] e = ".obj" -> Last(p) \in {"o.obj", "p.obj", "d.obj", "lost.obj", "o.txt"}
                [] e = ".txt" -> Last(p) \in {"d.txt", "k9.txt"}
Paths(t) == {fs[i].path : i \in {j \in 1..Len(fs) : fs[j].t = t}}
(* a file of that kind, or something else with such a name *)
Target(t, e, k) ==
  LET good == Paths(t)
      all == {Append(d, n) : d \in Folders, n \in {"w.bmp", "v.bmp", "o.obj", "p.obj", "d.obj", "d.bmp", "d.txt", "lost.bmp", "lost.obj", "o.txt", "k9.txt"}}
      bad == {p \in all : Ends(p, e) /\ p \notin good}
  IN IF good # {} /\ ~(Trouble > 0 /\ One(5, k)) THEN R(good, k) ELSE R(bad, k)
(* --- values --- *)
Num(k) == R({0, 1000, -1000, 2000, 250, -250, 500, 1500, 330, 10, 3000, 12345, -7125}, k)
Vec(k) == <<Num(k), Num(k + 1), Num(k + 2)>>
Angle(k) == R({0, 90000, -90000, 180000, 30000, 45000, 270000, -60000, 12500, 400000, 1000}, k)
Rgb(k) == [rgb |-> TRUE, c |-> <<R({0, 255, 128, 10, 200}, k), R(0..255, k + 1), R({0, 255, 64, 20}, k + 2)>>]
TexValue(dir, k) == IF One(2, k) THEN LET n == R(TexNames \cup (IF Trouble > 0 THEN {"gone"} ELSE {}), k)
                                      IN [rgb |-> FALSE, text |-> n, abs |-> FALSE, parts |-> <<n>>]
                    ELSE PathTo(dir, Target("image", ".bmp", k), k)
MaskValue(dir, k) == <<TexValue(dir, k), R({"R", "G", "B", "A"}, k), One(2, k)>>
(* --- statements --- *)
(* numbers of samples near large squares and half way between two *)
NearSquares == UNION {{r * r + d : d \in {-r, 1 - r, -1, 0, 1, r, r + 1}} : r \in {24, 31, 33, 40, 64, 77, 100, 127, 199, 250}}
SetItem(k) ==
  LET c == R(1..14, k)
  IN CASE c = 1 -> <<"out", R({"pic.png", "a b.bmp", "p.ppm", "o.tif", "t.jpg"}, k)>>
       [] c \in {2, 3} -> <<"width", IF One(2, k) THEN R({0, 31, 32, 33, 64, 95, 96, 100, 127, 160, 200, 250}, k) ELSE R(20..400, k)>>
       [] c = 4 -> <<"height", IF One(2, k) THEN R({0, 1, 2, 3, 16, 33, 50, 64, 99, 120, 201}, k) ELSE R(4..300, k)>>
       [] c = 5 -> <<"spp", IF One(2, k) THEN R(0..50 \cup {90, 100, 120, 121, 122, 132, 133, 999, 1000}, k) ELSE R(NearSquares, k)>>
       [] c = 6 -> <<"sampler", R({"random", "stratified"}, k)>>
       [] c = 7 -> <<"filter", R({"box", "tent", "gaussian", "mitchell", "lanczos"}, k)>>
       [] c = 8 -> <<"value0", R({330, 500, 1000, 2000, 3000, 2500, 1}, k)>>
       [] c = 9 -> <<"value1", R({330, 0, 500, 1000}, k)>>
       [] c = 10 -> <<"texture", R({"unfiltered", "trilinear", "ewa"}, k)>>
       [] c = 11 -> <<"camera", R({"perspective", "orthographic", "panorama"}, k)>>
       [] c = 12 -> <<"position", <<R({0, 1000, -2500}, k), R({0, 330, 4000}, k + 1), R({0, -1000, -6000}, k + 2)>>>>
       [] c = 13 -> IF One(2, k) THEN <<"target", <<R({0, 9000, -9500}, k), R({7000, 8330}, k + 1), R({0, 1000, 600}, k + 2)>>>>
                    ELSE <<"up", R({<<0, 1000, 0>>, <<1000, 0, 0>>, <<0, 0, 1000>>, <<0, -1000, 0>>, <<600, 0, 800>>}, k)>>
       [] c = 14 -> <<"fov", R({55000, 90000, 30000, 10000, 75500, 120000, 550}, k)>>
Group(key) == CASE key \in {"width", "height"} -> "resolution" [] key \in {"filter", "value0", "value1", "texture"} -> "filter"
                [] key \in {"camera", "position", "target", "up", "fov"} -> "camera" [] OTHER -> key
SetStatement(k) ==
  LET a == SetItem(k)
      more == [i \in 1..R(0..3, k) |-> SetItem(k + i)]
  IN [k |-> "set", group |-> Group(a[1]),
      items |-> <<a>> \o (IF Group(a[1]) \in {"resolution", "filter", "camera"}
                          THEN SelectSeq(more, LAMBDA x : Group(x[1]) = Group(a[1])) ELSE <<>>)]
(* up to n items, drawn by F *)
TextureStatement(dir, k) ==
  LET name == R(TexNames, k)
      src == <<"src", PathTo(dir, Target("image", ".bmp", k), k)>>
      It(i) == CASE One(3, k + i) -> <<"scale", IF One(2, k) THEN <<R({500, 2000, 3000}, k), R({1000, 250}, i)>> ELSE LET s == R({500, 4000}, k) IN <<s, s>>>>
                 [] One(2, k + i) -> <<"shift", <<R({250, 500, -1000}, k), R({0, 1400, 125}, i)>>>>
                 [] OTHER -> <<"name", IF One(3, i) THEN R(TexNames, k) ELSE name>>
      a == [i \in 1..R(0..2, k) |-> It(i)]
      b == [i \in 1..R(0..2, k + 1) |-> It(i + 2)]
  IN [k |-> "texture", items |-> a \o <<src>> \o b]
Metals == {"Ag", "Al", "Au", "Cu", "Fe", "Hg", "Pb", "Pt", "W", "Be", "Bi", "Co", "Cr", "Ge", "K", "Li", "Mg", "Mn", "Mo", "Na", "Nb", "Ni", "Pd", "Rh", "Ta", "Ti", "V", "Zn", "Zr"}
MaterialStatement(dir, k) ==
  LET d1 == One(2, k)
      s1 == One(2, k + 1)
      It(i) == LET c == R(1..12, k + i)
               IN CASE c \in {1, 2} -> <<"type", R({"matte", "glossy", "metal", "glass"}, k)>>
                    [] c \in {3, 4, 5} -> <<"diffuse", IF d1 THEN Rgb(k + i) ELSE TexValue(dir, k + i)>>
                    [] c = 6 -> <<"specular", IF s1 THEN Rgb(k + i) ELSE TexValue(dir, k + i)>>
                    [] c \in {7, 8} -> <<"roughness", R({0, 100, 200, 300, 500, 750, 1000, 1500}, k)>>
                    [] c = 9 -> <<"anisotropy", R({0, 100, 200, 300, 500, 1000, 1500}, k)>>
                    [] c = 10 -> <<"distribution", R({"blinn", "beckmann", "ggx"}, k)>>
                    [] c = 11 -> <<"ior", R({<<1333>>, <<1500>>, <<1458, 3>>, <<1700, 10>>, <<1500, 4, 1>>, <<1039, 231, 1010, 6, 20, 103560>>}, k)>>
                    [] c = 12 -> <<"element", R(Metals, k)>>
      a == [i \in 1..R(0..3, k) |-> It(i)]
      b == [i \in 1..R(0..3, k + 1) |-> It(i + 3)]
  IN [k |-> "material", items |-> a \o <<<<"name", R(MatNames \cup (IF Trouble > 0 /\ One(4, k) THEN {"Default"} ELSE {}), k)>>>> \o b]
PlainStatement(dir, k) ==
  LET c == <<"diffuse", IF One(2, k) THEN Rgb(k) ELSE TexValue(dir, k)>>
      n == <<"name", R(MatNames, k)>>
  IN [k |-> "material", items |-> IF One(2, k) THEN <<n, c>> ELSE <<c, n>>]
DualStatement(dir, k) ==
  LET Names == MatNames \cup (IF Trouble > 0 THEN {"Rusty"} ELSE {})
      It(i) == LET c == R(1..3, k + i)
               IN CASE c = 1 -> <<"first", R(Names, k + i)>> [] c = 2 -> <<"second", R(Names, k + i)>>
                    [] c = 3 -> <<"mask", MaskValue(dir, k + i)>>
      a == [i \in 1..R(0..3, k) |-> It(i)]
      b == [i \in 1..R(0..2, k + 1) |-> It(i + 3)]
  IN [k |-> "dualmaterial", items |-> a \o <<<<"name", R(MixNames, k)>>>> \o b]
(* every object in its own place *)
ObjectStatement(dir, light, k) ==
  LET name == R(MeshNames \cup {"Sphere"} \cup (IF Trouble > 0 THEN {"Nowhere"} ELSE {}), k)
      at == <<"position", <<40000 * objs + R({0, 125, -1000}, k), R({0, 500, -2000}, k), R({0, 1330, -250}, k)>>>>
      temp == One(2, k)
      It(i) == LET c == R(1..10, k + i)
               IN CASE c \in {1, 2} -> <<"rotation", <<Angle(k + i), Angle(i), Angle(i + 1)>>>>
                    [] c = 3 -> <<"scale", <<R({500, 1500, 2000}, k), R({250, 1000}, i), R({3000, 1250}, i + 1)>>>>
                    [] c = 4 -> LET s == R({250, 500, 2000, 1500, 3000}, k) IN <<"scale", <<s, s, s>>>>
                    [] c = 5 -> <<"position", <<R({0, 77000, 1}, k), 0, R({5, 0}, i)>>>>
                    [] c \in {6, 7} -> <<"mask", MaskValue(dir, k + i)>>
                    [] OTHER -> IF ~light THEN <<"material", R(MatNames \cup MixNames \cup (IF Trouble > 0 THEN {"Rusty"} ELSE {}), k)>>
                                ELSE IF temp THEN <<"temperature", R({1000, 2500, 4500, 6500, 9000}, k)>>
                                ELSE <<"color", Rgb(k).c>>
      a == [i \in 1..R(0..4, k) |-> It(i)]
      b == SelectSeq([i \in 1..R(0..2, k + 1) |-> It(i + 4)], LAMBDA x : x[1] # "position")
  IN [k |-> IF light THEN "light" ELSE "world",
      items |-> <<<<"name", name>>>> \o a \o (IF objs = 0 /\ One(2, k) THEN SelectSeq(b, LAMBDA x : FALSE) ELSE <<at>> \o b)]
Put(i, st) == fs' = [fs EXCEPT ![i].sts = Append(@, st)]
Late(h) == IF h.k \in {"world", "light"} /\ objs = 0 THEN h ELSE h
Statement(c, i, k) ==
  CASE c = "set" -> SetStatement(k)
    [] c = "texture" -> TextureStatement(Dir(i), k)
    [] c = "material" -> MaterialStatement(Dir(i), k)
    [] c = "plain" -> PlainStatement(Dir(i), k)
    [] c = "dual" -> DualStatement(Dir(i), k)
    [] c = "shape" -> [k |-> "shape", path |-> PathTo(Dir(i), Target("obj", ".obj", k), k)]
    [] c = "world" -> ObjectStatement(Dir(i), FALSE, k)
    [] c = "light" -> ObjectStatement(Dir(i), TRUE, k)
    [] c = "child" -> [k |-> "child", path |-> PathTo(Dir(i), Target("none", ".txt", k), k)]
(* every file has a statement; every included file is included once, in any place *)
Fill ==
  /\ stage = "kids"
  /\ \E q \in {[i \in 1..Len(fs) |-> IF i \in Scenes THEN [fs[i] EXCEPT !.sts = <<SetStatement(todo)>>] ELSE fs[i]]} :
     \E ns \in {IF kids = <<>> THEN 0 ELSE R({i \in Scenes : fs[i].path \in {kids[j] : j \in 1..Len(kids)}}, todo)} :
     \E inc \in {[j \in 1..Len(kids) |-> [k |-> "child", path |-> PathTo(Dir(MainIx), kids[j], todo + j)]]} :
     \E sub \in {IF ns = 0 \/ One(2, todo) THEN <<>>
                 ELSE <<[k |-> "child", path |-> PathTo(Dir(ns), fs[CHOOSE i \in Scenes : Last(fs[i].path) = KidName(4)].path, todo)]>>} :
       fs' = [i \in 1..Len(q) |-> IF i = MainIx THEN [q[i] EXCEPT !.sts = @ \o inc]
                                  ELSE IF i = ns THEN [q[i] EXCEPT !.sts = sub \o @] ELSE q[i]]
  /\ stage' = "write" /\ UNCHANGED <<main, kids, objs, todo>>
Insert(q, at, x) == SubSeq(q, 1, at - 1) \o <<x>> \o SubSeq(q, at, Len(q))
Write ==
  /\ stage = "write" /\ todo > 0
  /\ todo' = todo - 1
  /\ \E i \in {IF One(2, todo) THEN MainIx ELSE R(Scenes, todo)} :
     \E w \in {R(1..Len(W), todo)} :
     \E c \in {IF W[w] \in {"world", "light"} /\ (objs >= MaxObj \/ Last(fs[i].path) = KidName(4)) THEN "plain"
               ELSE IF W[w] = "child" /\ Trouble = 0 THEN "set" ELSE W[w]} :
     \E st \in {Statement(c, i, todo)} :
     \E at \in {R(1..(Len(fs[i].sts) + 1), todo)} :
       /\ fs' = [fs EXCEPT ![i].sts = Insert(@, at, st)]
       /\ objs' = IF c \in {"world", "light"} THEN objs + 1 ELSE objs
  /\ stage' = IF todo = 1 THEN "done" ELSE stage
  /\ UNCHANGED <<main, kids>>
Next == Begin \/ Fill \/ Write
(* --- what is promised --- *)
Res == Result(fs, main)
Promise ==
  stage = "done" =>
    /\ Res.set.width % 32 = 0 /\ Res.set.width > 0 /\ Res.set.spp > 0 /\ Res.set.height[2] > 0
    /\ Res.set.sampler = "stratified" => \E r \in 1..251 : r * r = Res.set.spp
    /\ \A i, j \in 1..Len(Res.mats) : Res.mats[i].name = Res.mats[j].name => i = j
    /\ \A i \in 1..Len(Res.objects) : \A n \in 1..Len(Res.objects[i].mats) :
         LET x == Res.objects[i].mats[n] IN x = "Default" \/ In(Res.mats, x)
    /\ (Trouble = 0 => \A i \in 1..Len(fs) : fs[i].path \notin {<<"lost">>})
Emit == stage = "done" => PrintT("@@" \o ToJson([fs |-> fs, main |-> main, want |-> Res]))
=============================================================================
