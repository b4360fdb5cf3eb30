---------------------------------- MODULE ConfAlg ----------------------------------
(* Laws of Conf over every main file of up to Max statements of a small set,    *)
(* that includes one file from another folder.                                  *)
EXTENDS Conf, TLC, FiniteSets
CONSTANT Max
VARIABLES sts
P(ps) == [rgb |-> FALSE, abs |-> FALSE, parts |-> ps, text |-> "none"]
N(x) == [rgb |-> FALSE, abs |-> FALSE, parts |-> <<x>>, text |-> x]
S(items) == [k |-> "set", items |-> items]
Alphabet == {
  S(<<<<"width", 64>>>>), S(<<<<"width", 33>>>>), S(<<<<"spp", 10>>>>), S(<<<<"sampler", "random">>>>), S(<<<<"spp", 7>>, <<"spp", 50>>>>),
  [k |-> "texture", items |-> <<<<"src", P(<<"w.bmp">>)>>>>], [k |-> "texture", items |-> <<<<"name", "T">>, <<"src", P(<<"..", "w.bmp">>)>>>>],
  [k |-> "material", items |-> <<<<"name", "A">>, <<"diffuse", N("T")>>>>], [k |-> "material", items |-> <<<<"name", "A">>, <<"diffuse", P(<<"a", "w.bmp">>)>>>>],
  [k |-> "material", items |-> <<<<"name", "B">>>>],
  [k |-> "dualmaterial", items |-> <<<<"name", "B">>, <<"first", "A">>, <<"second", "C">>, <<"mask", <<N("w.bmp"), "R", TRUE>>>>>>],
  [k |-> "shape", path |-> P(<<"o.obj">>)],
  [k |-> "world", items |-> <<<<"name", "Box">>, <<"material", "B">>, <<"position", <<1, 0, 0>>>>>>],
  [k |-> "world", items |-> <<<<"material", "A">>, <<"name", "Sphere">>, <<"mask", <<N("T"), "A", FALSE>>>>>>],
  [k |-> "light", items |-> <<<<"name", "Box">>, <<"temperature", 2000>>>>],
  [k |-> "child", path |-> P(<<"a", "kid.txt">>)], [k |-> "child", path |-> P(<<"a", "..", "no.txt">>)] }
Kid == <<S(<<<<"spp", 3>>>>), [k |-> "texture", items |-> <<<<"name", "T">>, <<"src", P(<<"w.bmp">>)>>>>],
         [k |-> "material", items |-> <<<<"name", "C">>, <<"diffuse", P(<<"..", "w.bmp">>)>>>>], [k |-> "child", path |-> P(<<"..", "no.txt">>)]>>
Disk == <<[path |-> <<"m", "w.bmp">>, t |-> "image"], [path |-> <<"w.bmp">>, t |-> "image"], [path |-> <<"m", "a", "w.bmp">>, t |-> "image"],
          [path |-> <<"m", "o.obj">>, t |-> "obj", meshes |-> <<[name |-> "Box", kind |-> "tri", var |-> 0, mats |-> <<"A">>]>>],
          [path |-> <<"m", "a", "kid.txt">>, t |-> "scene", sts |-> Kid]>>
With(q) == Append(Disk, [path |-> <<"m", "main.txt">>, t |-> "scene", sts |-> q])
Res(q) == Result(With(q), <<"m", "main.txt">>)
Kids1(q) == Cardinality({i \in 1..Len(q) : q[i].k = "child" /\ q[i].path.parts = <<"a", "kid.txt">>})
Init == sts = <<>>
Next == Len(sts) < Max /\ \E x \in Alphabet : (x.k = "child" => \A i \in 1..Len(sts) : sts[i] # x) /\ sts' = Append(sts, x)
Swap(q, i) == [q EXCEPT ![i] = q[i + 1], ![i + 1] = q[i]]
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
(* different kinds of declarations can be in any order *)
Kinds(x) == IF x.k \in {"world", "light"} THEN "object" ELSE x.k
AnyOrder == \A i \in 1..(Len(sts) - 1) : Kinds(sts[i]) # Kinds(sts[i + 1]) => Res(Swap(sts, i)) = Res(sts)
(* settings of different names as well *)
Sets == \A i \in 1..(Len(sts) - 1) :
          sts[i].k = "set" /\ sts[i + 1].k = "set" /\ sts[i].items[1][1] # sts[i + 1].items[1][1] => Res(Swap(sts, i)) = Res(sts)
(* a setting written again later, in the same file, does not count *)
LastCounts == \A i \in 1..Len(sts) : \A j \in (i + 1)..Len(sts) :
          sts[i].k = "set" /\ sts[j].k = "set" /\ sts[i].items[1][1] = sts[j].items[1][1] => Res(Without(sts, i)) = Res(sts)
(* what the included file sets stays set *)
KidCounts == Kids1(sts) > 0 => LET n == Res(sts).set IN n.spp = (IF n.sampler = "random" THEN 3 ELSE 4)
(* never a value that can not be used *)
Usable == LET s == Res(sts).set IN s.width % 32 = 0 /\ s.width > 0 /\ s.spp > 0 /\ s.height[2] > 0
(* a material declared again changes nothing but what is reported *)
Twice == \A i \in 1..Len(sts) : \A j \in 1..(i - 1) :
           sts[i].k = "material" /\ sts[j].k = "material" /\ Value(sts[i].items, "name", "") = Value(sts[j].items, "name", "")
           => LET a == Res(sts) b == Res(Without(sts, i))
              IN a.mats = b.mats /\ a.objects = b.objects /\ a.texs = b.texs /\ "A" \in a.bad \cup {IF Value(sts[i].items, "name", "") = "A" THEN "" ELSE "A"}
(* every material of an object exists; lights are the lights *)
Known == LET r == Res(sts)
         IN /\ \A i \in 1..Len(r.objects) : \A n \in 1..Len(r.objects[i].mats) : r.objects[i].mats[n] = "Default" \/ In(r.mats, r.objects[i].mats[n])
            /\ Cardinality({i \in 1..Len(r.objects) : r.objects[i].light})
               = (IF \E i \in 1..Len(sts) : sts[i].k = "shape" THEN Cardinality({i \in 1..Len(sts) : sts[i].k = "light"}) ELSE 0)
(* the folder of the file counts, not the one of the file that includes it *)
OwnFolder == Kids1(sts) > 0 => LET r == Res(sts) IN
   /\ In(r.mats, "C") /\ Of(r.mats, "C").diffuse.tex.file = <<"m", "w.bmp">>
   /\ \A i \in 1..Len(r.texs) : r.texs[i].name = "T" => r.texs[i].file = (IF \E j \in 1..Len(sts) : sts[j].k = "texture" /\ Has(sts[j].items, "name")
                                                                          THEN <<"w.bmp">> ELSE <<"m", "a", "w.bmp">>)
(* what is missing is reported, and only that *)
Reported == LET r == Res(sts) IN
   /\ ("no.txt" \in r.bad) = (\E i \in 1..Len(sts) : sts[i].k = "child" /\ sts[i].path.parts # <<"a", "kid.txt">>)
   /\ (sts = <<>> => r.bad = {})
   /\ ("Box" \in r.bad /\ (\E i \in 1..Len(sts) : sts[i].k = "shape") => Cardinality({i \in 1..Len(sts) : sts[i].k = "shape"}) > 1)
=============================================================================
