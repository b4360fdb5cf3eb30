----------------------------- MODULE SceneHist ------------------------------
(* Random histories of a scene, with repeated and mass insertions.           *)
EXTENDS SceneBook, TLC, Json
CONSTANTS Len_, Near, Mix
VARIABLES hist, todo
vars == <<svars, hist, todo>>
Rnd(S) == RandomElement(S)
Init == SInit /\ hist = <<>> /\ todo = 0
Setup == todo = 0 /\ hist = <<>> /\ (\E n \in {Rnd(Len_)} : todo' = n) /\ UNCHANGED <<svars, hist>>
Go == todo > 0 /\ todo' = todo - 1
Log(o, x) == hist' = Append(hist, [op |-> o, x |-> x, ns |-> Cardinality(shapes'),
   na |-> Cardinality(owned'), l |-> lights', b |-> built'])
(* mostly fresh objects, sometimes repeated ones *)
Pick(S, used, k) == LET f == S \ used IN IF f = {} \/ k = 0 THEN Rnd(S) ELSE Rnd(f)
Step == /\ Go
        /\ \E k \in {Rnd(0..2)}, o \in {Mix[Rnd(1..Len(Mix))]} :
           \E x \in {CASE o = "s" -> Pick(Shapes, shapes, k)
                       [] o = "a" -> Pick(Assets, owned, k)
                       [] o \in {"l", "al"} -> Pick(Lights, owned, k)
                       [] OTHER -> 0} :
           /\ CASE o = "s" -> InheritShape(x)
                [] o \in {"a", "al"} -> InheritAsset(x)
                [] o = "l" -> InheritLight(x)
                [] OTHER -> Build
           /\ Log(o, x)
(* a crowd of further assets, numbered from c: leaves room for Near more *)
Crowd == /\ Go /\ Near < 9999
         /\ LET n == MaxTree - Near - Len(tree) IN
            /\ n > 0
            /\ LET new == [i \in 1..n |-> 100000 + i] IN
               /\ owned' = owned \cup Range(new)
               /\ tree' = tree \o new
               /\ UNCHANGED <<shapes, lights, built, gone>>
               /\ Log("c", n)
Next == Setup \/ Step \/ (Near < 9999 /\ Crowd)
Show(h) == [h EXCEPT !.b = {x \in h.b : x < 100000}]
Emit == (todo = 0 /\ hist # <<>>) =>
   PrintT("@@" \o ToJson([h |-> [i \in 1..Len(hist) |-> Show(hist[i])],
          owned |-> {x \in owned : x < 100000}, shapes |-> shapes]))
=============================================================================
