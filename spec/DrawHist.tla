--------------------------------- MODULE DrawHist ---------------------------------
(* Lobes and first directions for which the cells of Draws are counted, and     *)
(* pairs of directions at which the density itself is asked.                    *)
EXTENDS Scatter, TLC, Json
VARIABLES c, n
H == INSTANCE ScatHist WITH hist <- <<>>, lobe <- [kind |-> "none"], stage <- "", Steps <- 1
R(S, k) == RandomElement({x \in S : k >= 0})
(* rings and sectors; the grid is a multiple of both *)
Shapes == {<<16, 1>>, <<1, 16>>, <<4, 4>>, <<8, 2>>, <<2, 8>>, <<3, 4>>, <<32, 1>>}
Init == c = [kind |-> "none"] /\ n = 0
Next == /\ n < 20 /\ n' = n + 1
        /\ \E kind \in {R(H!Kinds, n)} : \E wo \in {H!Dir(n)} : \E up \in {R(1..3, n)} :
           \E u \in {R(H!Rough, n)} : \E v \in {R(H!Rough, n + 100)} : \E sh \in {R(Shapes, n)} :
             c' = [kind |-> kind, u |-> u, v |-> IF H!Marked(kind) THEN v ELSE u,
                   (* often along the normal, where all facets are seen *)
                   wo |-> IF up = 1 THEN <<0, 0, IF wo[3] > 0 THEN 1 ELSE -1, 1>> ELSE wo,
                   p |-> R({<<1, 1>>, <<4, 3>>}, n), q |-> R({<<3, 2>>, <<2, 1>>, <<5, 4>>}, n), sigma |-> R({0, 15, 30, 60}, n),
                   rings |-> sh[1], sectors |-> sh[2], grid |-> 96, wi |-> [k \in 1..4 |-> H!Dir(n * 5 + k)]]
Legal == c.kind # "none" => Unit(c.wo) /\ \A k \in 1..4 : Unit(c.wi[k]) /\ c.grid % c.rings = 0 /\ c.grid % c.sectors = 0
Emit == c.kind # "none" => PrintT("@@" \o ToJson(c))
=============================================================================
