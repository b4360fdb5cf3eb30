----------------------------- MODULE FilmHist -----------------------------
(* Programs for real threads: each thread works on tiles of a random tiling, *)
(* adds random samples of its tile, attempts and finally forces its flush.   *)
(* A ghost records for every pixel which samples must end up in it: the      *)
(* result may not depend on the schedule, which is random too.               *)
(* Positions are in eighths of a pixel, odd, so that no sample is exactly on *)
(* the border of a support.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NThreads, MaxOps, Range, SchedLen

VARIABLES w, h, r, free, prog, cur, contrib, nops, nsamp, sched, done
vars == <<w, h, r, free, prog, cur, contrib, nops, nsamp, sched, done>>
Abs(x) == IF x < 0 THEN -x ELSE x
Threads == 1..NThreads
Rnd(S) == RandomElement(S)

(* everything random is drawn in a step: TLC computes initial states once *)
Init == /\ w = 0 /\ h = 0 /\ r = 0 /\ free = {}
        /\ prog = [t \in Threads |-> <<>>]
        /\ cur = [t \in Threads |-> <<>>]
        /\ contrib = <<>>
        /\ nops = 0 /\ nsamp = 0 /\ sched = <<>> /\ done = FALSE
Setup == /\ w = 0
         /\ \E ww \in {Rnd({8, 12, 16})}, hh \in {Rnd({1, 4, 10})}, rr \in {Rnd(Range)} :
            \E tw \in {Rnd({4, ww})}, th \in {Rnd({1, 5, hh})} :
            /\ w' = ww /\ h' = hh /\ r' = rr
            /\ free' = {<<x, IF x + tw > ww THEN ww ELSE x + tw,
                          y, IF y + th > hh THEN hh ELSE y + th>> :
                         x \in {k \in 0..(ww-1) : k % tw = 0},
                         y \in {k \in 0..(hh-1) : k % th = 0}}
            /\ contrib' = [p \in (0..(ww-1)) \X (0..(hh-1)) |-> <<>>]
         /\ UNCHANGED <<prog, cur, nops, nsamp, sched, done>>

Near(p, q) == Abs(8*p + 4 - q) < 8*r
App(t, op) == prog' = [prog EXCEPT ![t] = Append(@, op)]

Area(t) == /\ free # {}
           /\ \E a \in {Rnd(free)} :
              /\ free' = free \ {a}
              /\ cur' = [cur EXCEPT ![t] = a]
              /\ App(t, <<"A", a[1], a[2], a[3], a[4]>>)
           /\ UNCHANGED <<contrib, nsamp>>
Add(t) == /\ cur[t] # <<>>
          /\ LET a == cur[t] IN
             \E x \in {2*Rnd((4*a[1])..(4*a[2]-1)) + 1},
                y \in {2*Rnd((4*a[3])..(4*a[4]-1)) + 1} :
             /\ contrib' = [p \in DOMAIN contrib |->
                  IF Near(p[1], x) /\ Near(p[2], y)
                  THEN Append(contrib[p], nsamp) ELSE contrib[p]]
             /\ App(t, <<"S", nsamp, x, y>>)
          /\ nsamp' = nsamp + 1
          /\ UNCHANGED <<free, cur>>
Try(t) == App(t, <<"T">>) /\ UNCHANGED <<free, cur, contrib, nsamp>>
Force(t) == App(t, <<"F">>) /\ UNCHANGED <<free, cur, contrib, nsamp>>

Work == /\ ~done /\ w > 0
        /\ \E t \in {Rnd(Threads)}, c \in {Rnd(1..10)} :
           CASE nops >= MaxOps ->
                  /\ done' = TRUE
                  /\ prog' = [u \in Threads |-> Append(prog[u], <<"F">>)]
                  /\ sched' = [i \in 1..SchedLen |-> Rnd(0..(NThreads*3-1))]
                  /\ UNCHANGED <<free, cur, contrib, nops, nsamp>>
             [] OTHER ->
                  /\ UNCHANGED <<sched, done>>
                  /\ nops' = nops + 1
                  /\ IF cur[t] = <<>> \/ (c = 1 /\ free # {})
                     THEN IF free # {} THEN Area(t) ELSE Try(t)
                     ELSE CASE c \in {1, 2} -> Try(t)
                            [] c = 3 -> Force(t)
                            [] OTHER -> Add(t)
        /\ UNCHANGED <<w, h, r>>
Next == Setup \/ Work

(* what the finished image must be made of *)
Emit == done => PrintT("@@" \o ToJson([w |-> w, h |-> h, r |-> r, n |-> nsamp,
    prog |-> prog, sched |-> sched,
    pix |-> [y \in 1..h |-> [x \in 1..w |-> contrib[<<x-1, y-1>>]]]]))
=============================================================================
