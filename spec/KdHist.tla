------------------------------- MODULE KdHist -------------------------------
(* The scene's acceleration structure as its users see it: assets are added, *)
(* the structure is (re)built at any time, and a ray reports the closest of  *)
(* the assets present at the last build.                                     *)
EXTENDS Lattice, TLC, Json
CONSTANTS NAssets, NOps, World, Styles
VARIABLES shapes, added, built, ops, nops, style, done
vars == <<shapes, added, built, ops, nops, style, done>>
Rnd(S) == RandomElement(S)
Dirs == -3..3
Init == /\ shapes = <<>> /\ added = {} /\ built = {} /\ ops = <<>> /\ nops = 0
        /\ style = "" /\ done = FALSE
RC(n) == 2*Rnd(0..n)           \* even coordinate
(* sizes and places of the shapes, by style *)
RBox(s) ==
  LET m == CASE s = "grid" -> 0 [] s = "small" -> 2 [] s = "mixed" -> 3 [] OTHER -> World \div 2
      p == <<RC(World), RC(World), RC(World)>>
      e == <<2 + RC(m), 2 + RC(m), 2 + RC(m)>>
  IN [kind |-> "box", lo |-> p, hi |-> <<p[1]+e[1], p[2]+e[2], p[3]+e[3]>>]
RFlat(q) == LET k == Rnd(1..3)   \* axis of the plane
             c == RC(World)
             P(x, y) == CASE k = 1 -> <<c, x, y>> [] k = 2 -> <<x, c, y>> [] OTHER -> <<x, y, c>>
             x0 == RC(World - 2)
             y0 == RC(World - 2)
         IN [kind |-> "tri", a |-> P(x0, y0), b |-> P(x0 + 2 + RC(4), y0),
             c |-> P(x0, y0 + 2 + RC(4))]
RTri(q) == LET p == <<RC(World), RC(World), RC(World)>> IN
        [kind |-> "tri", a |-> p,
         b |-> <<p[1] + RC(4) - 4, p[2] + RC(4) - 4, p[3] + RC(4) - 2>>,
         c |-> <<p[1] + RC(4) - 2, p[2] + RC(4) - 4, p[3] + RC(4) - 4>>]
Good(t) == t.kind = "box" \/ Cross(Sub(t.b, t.a), Sub(t.c, t.a)) # <<0, 0, 0>>
RShape(s) == CASE s = "flat" -> RFlat(s)
               [] s = "grid" -> RBox(s)
               [] s = "stack" -> LET c == RC(World) IN    \* same footprint, many levels
                    [kind |-> "box", lo |-> <<0, 0, c>>, hi |-> <<2*World, 2*World, c+2>>]
               [] s = "tris" -> RTri(s)
               [] OTHER -> CASE Rnd(1..3) = 1 -> RFlat(s) [] Rnd(1..3) = 2 -> RTri(s) [] OTHER -> RBox(s)

Setup == /\ style = ""
         /\ \E s \in {Rnd(Styles)}, n \in {Rnd(NAssets)} :
            /\ style' = s
            /\ shapes' = [i \in 1..n |-> RShape(s)]
         /\ UNCHANGED <<added, built, ops, nops, done>>

Add == \E i \in {Rnd(1..Max(1, Len(shapes) \div 2))} :
       (* several at once, to reach large trees *)
       LET new == {j \in Cardinality(added)+1..Min(Len(shapes), Cardinality(added)+i) :
                   Good(shapes[j])}
           upto == Min(Len(shapes), Cardinality(added)+i)
       IN /\ upto > Cardinality(added)
          /\ added' = 1..upto
          /\ ops' = Append(ops, <<"A", Cardinality(added)+1, upto>>)
          /\ UNCHANGED built
Build == /\ built' = added
         /\ ops' = Append(ops, <<"B">>)
         /\ UNCHANGED added
Odd(n) == 2*Rnd(0..n) + 1
(* a third of the coordinates lie on the planes the shapes' sides are on *)
Co(n) == IF Rnd(1..3) = 1 THEN 2*Rnd(0..n) ELSE Odd(n)
Shoot == /\ \E d \in {<<Rnd(Dirs), Rnd(Dirs), Rnd(Dirs)>>},
              p \in {<<Co(World), Co(World), Co(World)>>}, k \in {2*Rnd(0..4)} :
            /\ d # <<0, 0, 0>>
            /\ LET o == <<p[1] - k*d[1], p[2] - k*d[2], p[3] - k*d[3]>>
                   c == Closest(o, d, shapes, {i \in built : Good(shapes[i])})
               IN ops' = Append(ops, <<"R", o, d, c.hit, c.t, c.who, c.touch>>)
         /\ UNCHANGED <<added, built>>
Skip == UNCHANGED <<added, built, ops>>
Work == /\ style # "" /\ ~done
        /\ nops' = nops + 1
        /\ IF nops >= NOps THEN done' = TRUE /\ UNCHANGED <<added, built, ops>>
           ELSE /\ done' = done
                /\ \E c \in {Rnd(1..20)} :
                   CASE c = 1 /\ Cardinality(added) < Len(shapes) -> Add
                     [] nops < 2 /\ Cardinality(added) < Len(shapes) -> Add
                     [] c = 2 \/ nops = 2 -> Build
                     [] OTHER -> Shoot \/ (~ENABLED Shoot /\ Skip)
        /\ UNCHANGED <<shapes, style>>
Next == Setup \/ Work
Emit == done => PrintT("@@" \o ToJson([shapes |-> shapes, style |-> style, ops |-> ops,
                  good |-> {i \in 1..Len(shapes) : Good(shapes[i])}]))
=============================================================================
