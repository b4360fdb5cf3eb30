------------------------------ MODULE RenderGen ------------------------------
(* Configurations and schedules to run the real renderer under.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Widths, Heights, Spps, Threads, SchedLen
VARIABLES c, done
Rnd(S) == RandomElement(S)
(* everything random is drawn in a step: TLC computes initial states once *)
Init == done = FALSE /\ c = <<>>
Next == /\ ~done /\ done' = TRUE
        /\ \E n \in {Rnd(Threads)}, s \in {Rnd({0, 1})} :
           c' = [w |-> Rnd(Widths), h |-> Rnd(Heights),
                 (* only the random sampler takes any count *)
                 spp |-> IF s = 0 THEN Rnd(Spps) + Rnd(0..2) ELSE Rnd(Spps),
                 n |-> n, sampler |-> s,
                 filter |-> Rnd({"flat", "bumpy", "box", "tent", "mitchell"}),
                 (* runs of the same thread of random length *)
                 burst |-> Rnd({1, 3, 40}),
                 sched |-> [i \in 1..SchedLen |-> Rnd(0..(12*n - 1))]]
Emit == done => PrintT("@@" \o ToJson(c))
=============================================================================
