------------------------------ MODULE LibBook -------------------------------
(* The libraries of materials ("m"), textures ("t") and images ("i"): names  *)
(* to objects, plus anonymous textures.  The material library always has a   *)
(* default under the name "Default" that cannot be erased; the others keep   *)
(* their defaults outside of the names.  Objects are numbered; 0 stands for  *)
(* nothing, Dflt for the default.                                            *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Kinds, Names, MaxObj
VARIABLES lib, anon, made, dead
lvars == <<lib, anon, made, dead>>
Dflt == MaxObj + 1
Fixed(k, n) == k = "m" /\ n = "Default"
LInit == /\ lib = [k \in Kinds |-> [n \in Names |-> IF Fixed(k, n) THEN Dflt ELSE 0]]
         /\ anon = {} /\ made = 0 /\ dead = {}
Stored == UNION {{lib[k][n] : n \in Names} : k \in Kinds} \ {0, Dflt}
(* a new object is offered under a name; a taken name refuses it *)
AddNew(k, n) == /\ made < MaxObj /\ made' = made + 1
                /\ lib' = IF lib[k][n] = 0 THEN [lib EXCEPT ![k][n] = made'] ELSE lib
                /\ UNCHANGED <<anon, dead>>
(* the object stored under a name is offered again under the same name       *)
Again(k, n) == lib[k][n] # 0 /\ UNCHANGED lvars
AddAnon == "t" \in Kinds /\ made < MaxObj /\ made' = made + 1 /\ anon' = anon \cup {made'} /\ UNCHANGED <<lib, dead>>
Erase(k, n) == /\ IF Fixed(k, n) \/ lib[k][n] = 0 THEN UNCHANGED <<lib, dead>>
                  ELSE dead' = dead \cup {lib[k][n]} /\ lib' = [lib EXCEPT ![k][n] = 0]
               /\ UNCHANGED <<anon, made>>
Of(k) == {lib[k][n] : n \in Names} \ {0, Dflt}
(* the texture library clears textures, images and anonymous ones together   *)
Clear(g) == /\ LET ks == IF g = "m" THEN {"m"} ELSE {"t", "i"} \cap Kinds
                   gone == UNION {Of(k) : k \in ks} \cup (IF g = "m" THEN {} ELSE anon)
               IN /\ dead' = dead \cup gone
                  /\ lib' = [k \in Kinds |-> IF k \in ks THEN [n \in Names |-> IF Fixed(k, n) THEN Dflt ELSE 0] ELSE lib[k]]
                  /\ anon' = IF g = "m" THEN anon ELSE {}
            /\ UNCHANGED made
LNext == \/ \E k \in Kinds, n \in Names : AddNew(k, n) \/ Erase(k, n) \/ Again(k, n)
         \/ AddAnon
         \/ \E g \in {"m", "t"} : Clear(g)
(* every object is in one place, dead or nowhere (refused: the caller's)     *)
OnePlace == /\ Stored \cap dead = {} /\ anon \cap dead = {} /\ anon \cap Stored = {}
            /\ \A k, l \in Kinds, n, o \in Names : (<<k, n>> # <<l, o>> /\ lib[k][n] \notin {0, Dflt}) => lib[k][n] # lib[l][o]
DefaultStays == \A k \in Kinds, n \in Names : Fixed(k, n) => lib[k][n] = Dflt
(* a stored object leaves only by dying *)
Faithful == [][\A k \in Kinds, n \in Names : lib[k][n] # 0 /\ lib'[k][n] # lib[k][n] => lib[k][n] \in dead']_lvars
StaysDead == [][dead \subseteq dead']_lvars
=============================================================================
