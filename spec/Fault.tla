-------------------------------- MODULE Fault --------------------------------
(* What happens to a file, whatever its format: positions are thousandths of *)
(* its length, so that one schedule applies to files of any size.  A file    *)
(* with the single fault "cut" is a strict prefix of a good one.             *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxFaults
VARIABLES faults, todo
Rnd(S) == RandomElement(S)
Init == faults = <<>> /\ todo = 1
Byte(k) == Rnd({0, 1, 2, 127, 128, 255, Rnd(0..(255 + 0 * k)), Rnd(0..(255 + 0 * k))})
One(k) ==
  LET op == Rnd({"cut", "cut", "byte", "byte", "byte", "out", "in", "zero", "headbyte", "tailbyte"})
  IN [op |-> op, at |-> Rnd(0..(999 + 0 * k)), off |-> Rnd(0..(63 + 0 * k)), n |-> Rnd(1..(8 + 0 * k)),
      x |-> [i \in 1..4 |-> Byte(i + 0 * k)]]
Next == todo = 1 /\ \E n \in {Rnd({1, 1, 2, MaxFaults})} :
          /\ faults' = [k \in 1..n |-> One(k)]
          /\ todo' = 0
(* nothing but a truncation *)
Truncation == Len(faults) = 1 /\ faults[1].op = "cut"
Emit == todo = 0 => PrintT("@@" \o ToJson([faults |-> faults, trunc |-> Truncation]))
=============================================================================
