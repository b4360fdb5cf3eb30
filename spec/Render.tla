------------------------------- MODULE Render -------------------------------
(* The renderer: an image is cut in tiles of Split pixels, rendering threads *)
(* take tiles from a shared stack one at a time under a lock, deliver Spp    *)
(* samples for each pixel of the tile and leave when no tile is left.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Split

(* a configuration: image size, samples per pixel, number of threads *)
TilesOf(w, h) == {<<x, y>> : x \in 0..((w - 1) \div Split),
                             y \in 0..((h - 1) \div Split)}
Min(a, b) == IF a < b THEN a ELSE b
Area(w, h, k) == (Min((k[1]+1)*Split, w) - k[1]*Split) *
                 (Min((k[2]+1)*Split, h) - k[2]*Split)

VARIABLES cfg,     \* [w, h, spp, n]
          left,    \* tiles not yet taken
          tile,    \* thread -> tile or <<>>
          count,   \* tile -> samples delivered for each of its pixels
          gone     \* threads that found the stack empty
vars == <<cfg, left, tile, count, gone>>

Start(c) == /\ cfg = c
            /\ left = TilesOf(c.w, c.h)
            /\ tile = [t \in 0..(c.n-1) |-> <<>>]
            /\ count = [k \in TilesOf(c.w, c.h) |-> 0]
            /\ gone = {}
Enter(t, k) == /\ t \in DOMAIN tile /\ t \notin gone
               /\ tile[t] = <<>> /\ k \in left
               /\ left' = left \ {k}
               /\ tile' = [tile EXCEPT ![t] = k]
               /\ UNCHANGED <<cfg, count, gone>>
Leave(t, k) == /\ t \in DOMAIN tile /\ tile[t] = k /\ k # <<>>
               /\ count' = [count EXCEPT ![k] = @ + cfg.spp]
               /\ tile' = [tile EXCEPT ![t] = <<>>]
               /\ UNCHANGED <<cfg, left, gone>>
Quit(t) == /\ t \in DOMAIN tile /\ tile[t] = <<>> /\ left = {} /\ t \notin gone
           /\ gone' = gone \cup {t}
           /\ UNCHANGED <<cfg, left, tile, count>>
Step(t) == Quit(t) \/ \E k \in TilesOf(cfg.w, cfg.h) : Enter(t, k) \/ Leave(t, k)
Next == \E t \in DOMAIN tile : Step(t)
Finished == gone = DOMAIN tile
EachPixelOnce == Finished => \A k \in DOMAIN count : count[k] = cfg.spp
NeverMore == \A k \in DOMAIN count : count[k] \in {0, cfg.spp}
OneOwner == \A t, u \in DOMAIN tile : (t # u /\ tile[t] # <<>>) => tile[t] # tile[u]
Termination == <>Finished

(* exhaustive check of the protocol itself *)
MCInit == \E n \in 1..3, w \in {Split, 2*Split}, h \in {1, Split + 1} :
          Start([w |-> w, h |-> h, spp |-> 2, n |-> n])
MCSpec == MCInit /\ [][Next]_vars /\ \A t \in 0..2 : WF_vars(t \in DOMAIN tile /\ Step(t))
=============================================================================
