----------------------------- MODULE SceneBook ------------------------------
(* A scene as a container.  Objects are numbered; an object is a shape, an   *)
(* asset or a light (a light is an asset as well, with the same number).     *)
(* Limits: lights beyond MaxLights are refused; assets beyond MaxTree are    *)
(* kept but cannot be hit.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Shapes, Assets, Lights, MaxLights, MaxTree
VARIABLES shapes, owned, lights, tree, built, gone
svars == <<shapes, owned, lights, tree, built, gone>>
Range(f) == {f[i] : i \in 1..Len(f)}
SInit == shapes = {} /\ owned = {} /\ lights = <<>> /\ tree = <<>> /\ built = {} /\ gone = {}
Plant(x) == IF Len(tree) < MaxTree THEN tree' = Append(tree, x) ELSE UNCHANGED tree
InheritShape(x) == /\ gone = {} /\ shapes' = shapes \cup {x}
                   /\ UNCHANGED <<owned, lights, tree, built, gone>>
InheritAsset(x) == /\ gone = {}
                   /\ owned' = owned \cup {x}
                   /\ IF x \in owned THEN UNCHANGED tree ELSE Plant(x)
                   /\ UNCHANGED <<shapes, lights, built, gone>>
InheritLight(x) == /\ gone = {}
                   /\ IF Len(lights) >= MaxLights \/ x \in owned
                      THEN UNCHANGED <<owned, lights, tree>>
                      ELSE owned' = owned \cup {x} /\ lights' = Append(lights, x) /\ Plant(x)
                   /\ UNCHANGED <<shapes, built, gone>>
Build == /\ gone = {} /\ built' = Range(tree) /\ UNCHANGED <<shapes, owned, lights, tree, gone>>
Destroy == /\ gone = {} /\ gone' = shapes \cup owned
           /\ shapes' = {} /\ owned' = {} /\ lights' = <<>> /\ tree' = <<>> /\ built' = {}
OnceEach == Cardinality(Range(lights)) = Len(lights) /\ Cardinality(Range(tree)) = Len(tree)
Owns == Range(lights) \subseteq owned /\ Range(tree) \subseteq owned /\ built \subseteq owned
Bounds == Len(lights) <= MaxLights /\ Len(tree) <= MaxTree
FirstCome == Cardinality(owned) <= MaxTree => Range(tree) = owned
NoneLost == [][gone' # {} => gone' = shapes \cup owned]_svars
SNext == \/ \E x \in Shapes : InheritShape(x)
         \/ \E x \in Assets \cup Lights : InheritAsset(x)
         \/ \E x \in Lights : InheritLight(x)
         \/ Build \/ Destroy
=============================================================================
