-------------------------------- MODULE Film --------------------------------
(* Protocol of the image film: rendering threads take tiles from a queue,    *)
(* spread every sample over the pixels of its filter support, update at once *)
(* the pixels they own and defer the others to a flush made under a mutex.   *)
(* A read-modify-write of a pixel is two steps, as in the code.              *)
(* Positions are in half pixels; the film is a strip of W pixels.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, TW, R2, Threads, PerTile, Rule

Abs(x) == IF x < 0 THEN -x ELSE x
Pixels == 0..(W-1)
Tiles == 0..((W \div TW) - 1)
Start(k) == k*TW
End(k) == (k+1)*TW
(* the pixels whose centre is within the filter range of position s *)
Foot(s) == {p \in Pixels : Abs(2*p + 1 - s) <= R2}
(* samples of a tile: PerTile positions, the first and the last half pixel *)
Samples(k) == IF PerTile = 1 THEN {2*Start(k)+1} ELSE {2*Start(k), 2*End(k)}
Reach(k) == UNION {Foot(s) : s \in (2*Start(k))..(2*End(k))}
Own(k) == Start(k)..(End(k)-1)
(* pixels no other tile can reach *)
Exclusive(k) == {p \in Own(k) : \A j \in Tiles \ {k} : p \notin Reach(j)}
Instant(k) == IF Rule = "tile" THEN Own(k) ELSE Exclusive(k)

VARIABLES queue,    \* tiles nobody took yet
          tile,     \* tile of each thread (or -1)
          todo,     \* samples still to add
          cur,      \* sample being added (or -1)
          inst,     \* pixels of it still to update in place
          reg,      \* what the thread read: <<pixel, value>> or <<>>
          deferred, \* contributions kept by the thread: set of <<pixel, sample>>
          lock,     \* owner of the mutex (0: free)
          flush,    \* "no" | "try" | "force": flush in progress
          phase,    \* "work" | "last" | "done"
          film      \* pixel -> (sample -> number of times added)
vars == <<queue, tile, todo, cur, inst, reg, deferred, lock, flush, phase, film>>

AllSamples == UNION {{<<k, s>> : s \in Samples(k)} : k \in Tiles}
Empty == [s \in AllSamples |-> 0]

Init == /\ queue = Tiles
        /\ tile = [t \in Threads |-> -1]
        /\ todo = [t \in Threads |-> {}]
        /\ cur = [t \in Threads |-> <<>>]
        /\ inst = [t \in Threads |-> {}]
        /\ reg = [t \in Threads |-> <<>>]
        /\ deferred = [t \in Threads |-> {}]
        /\ lock = 0
        /\ flush = [t \in Threads |-> "no"]
        /\ phase = [t \in Threads |-> "work"]
        /\ film = [p \in Pixels |-> Empty]

Idle(t) == cur[t] = <<>> /\ reg[t] = <<>> /\ flush[t] = "no"

Take(t) == /\ phase[t] = "work" /\ Idle(t) /\ tile[t] = -1
           /\ IF queue = {}
              THEN /\ phase' = [phase EXCEPT ![t] = "last"]
                   /\ UNCHANGED <<queue, tile, todo>>
              ELSE \E k \in queue :
                   /\ queue' = queue \ {k}
                   /\ tile' = [tile EXCEPT ![t] = k]
                   /\ todo' = [todo EXCEPT ![t] = {<<k, s>> : s \in Samples(k)}]
                   /\ UNCHANGED phase
           /\ UNCHANGED <<cur, inst, reg, deferred, lock, flush, film>>

(* add_pixel, first half: split the support *)
BeginAdd(t) == /\ Idle(t) /\ todo[t] # {}
               /\ \E c \in todo[t] :
                  LET f == Foot(c[2]) IN
                  /\ todo' = [todo EXCEPT ![t] = @ \ {c}]
                  /\ inst' = [inst EXCEPT ![t] = f \cap Instant(tile[t])]
                  /\ deferred' = [deferred EXCEPT ![t] = @ \cup
                                  ((f \ Instant(tile[t])) \X {c})]
                  /\ cur' = [cur EXCEPT ![t] = IF inst'[t] = {} THEN <<>> ELSE c]
               /\ UNCHANGED <<queue, tile, reg, lock, flush, phase, film>>

Read(t) == /\ cur[t] # <<>> /\ reg[t] = <<>> /\ inst[t] # {}
           /\ LET p == CHOOSE p \in inst[t] : TRUE IN
              reg' = [reg EXCEPT ![t] = <<p, film[p]>>]
           /\ UNCHANGED <<queue, tile, todo, cur, inst, deferred, lock, flush, phase, film>>

Write(t) == /\ cur[t] # <<>> /\ reg[t] # <<>>
            /\ LET p == reg[t][1] IN
               /\ film' = [film EXCEPT ![p] = [reg[t][2] EXCEPT ![cur[t]] = @ + 1]]
               /\ inst' = [inst EXCEPT ![t] = @ \ {p}]
               /\ cur' = [cur EXCEPT ![t] = IF inst'[t] = {} THEN <<>> ELSE @]
            /\ reg' = [reg EXCEPT ![t] = <<>>]
            /\ UNCHANGED <<queue, tile, todo, deferred, lock, flush, phase>>

(* end of a tile: try to flush; a busy lock means "later" *)
Try(t) == /\ phase[t] = "work" /\ Idle(t) /\ tile[t] # -1 /\ todo[t] = {}
          /\ tile' = [tile EXCEPT ![t] = -1]
          /\ IF lock = 0
             THEN lock' = t /\ flush' = [flush EXCEPT ![t] = "try"]
             ELSE UNCHANGED <<lock, flush>>
          /\ UNCHANGED <<queue, todo, cur, inst, reg, deferred, phase, film>>

Force(t) == /\ phase[t] = "last" /\ Idle(t) /\ lock = 0
            /\ lock' = t /\ flush' = [flush EXCEPT ![t] = "force"]
            /\ UNCHANGED <<queue, tile, todo, cur, inst, reg, deferred, phase, film>>

FlushRead(t) == /\ flush[t] # "no" /\ reg[t] = <<>> /\ deferred[t] # {}
                /\ LET d == CHOOSE d \in deferred[t] : TRUE IN
                   reg' = [reg EXCEPT ![t] = <<d[1], film[d[1]], d>>]
                /\ UNCHANGED <<queue, tile, todo, cur, inst, deferred, lock, flush, phase, film>>

FlushWrite(t) == /\ flush[t] # "no" /\ reg[t] # <<>>
                 /\ LET d == reg[t][3] IN
                    /\ film' = [film EXCEPT ![d[1]] = [reg[t][2] EXCEPT ![d[2]] = @ + 1]]
                    /\ deferred' = [deferred EXCEPT ![t] = @ \ {d}]
                 /\ reg' = [reg EXCEPT ![t] = <<>>]
                 /\ UNCHANGED <<queue, tile, todo, cur, inst, lock, flush, phase>>

FlushEnd(t) == /\ flush[t] # "no" /\ reg[t] = <<>> /\ deferred[t] = {}
               /\ lock' = 0
               /\ phase' = [phase EXCEPT ![t] = IF flush[t] = "force" THEN "done" ELSE @]
               /\ flush' = [flush EXCEPT ![t] = "no"]
               /\ UNCHANGED <<queue, tile, todo, cur, inst, reg, deferred, film>>

Step(t) == Take(t) \/ BeginAdd(t) \/ Read(t) \/ Write(t) \/ Try(t) \/ Force(t)
           \/ FlushRead(t) \/ FlushWrite(t) \/ FlushEnd(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

Done == \A t \in Threads : phase[t] = "done"
Expected == [p \in Pixels |-> [c \in AllSamples |-> IF p \in Foot(c[2]) THEN 1 ELSE 0]]
NothingLost == Done => film = Expected
NeverTwice == \A p \in Pixels, c \in AllSamples : film[p][c] <= 1
(* two threads never have the same pixel between read and write *)
NoTornPixel == \A t, u \in Threads :
    (t # u /\ reg[t] # <<>> /\ reg[u] # <<>>) => reg[t][1] # reg[u][1]
Mutex == \A t, u \in Threads : (flush[t] # "no" /\ flush[u] # "no") => t = u
Termination == <>Done
=============================================================================
