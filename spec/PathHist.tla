------------------------------ MODULE PathHist ------------------------------
(* Histories of path objects over a small file system.  Slots hold paths;    *)
(* a slot is fresh while nothing happened to the file system since the last  *)
(* time its object looked at it.  Only what lies below Cwd is ever changed.  *)
EXTENDS Path, TLC, Json, FiniteSets
CONSTANTS Cwd, Toks, Slots, MaxTok, FsOps
VARIABLES path, set, fresh, dirs, files, hist, todo
vars == <<path, set, fresh, dirs, files, hist, todo>>
Rnd(S) == RandomElement(S)
Below(p) == Prefix(Cwd, p) /\ p # Cwd
Ancestors == {SubSeq(Cwd, 1, k) : k \in 0..Len(Cwd)}
Known(p) == Prefix(Cwd, p) \/ p \in Ancestors
(* names of the greatest length, few enough for the system's path limit *)
Fits(p) == Cardinality({i \in 1..Len(p) : p[i][1] = "$L"}) <= 3
Exists(p) == p \in dirs \cup files
Children(p) == {q \in dirs \cup files : Len(q) = Len(p) + 1 /\ Prefix(p, q)}
Init == /\ path = [s \in Slots |-> <<>>] /\ set = [s \in Slots |-> FALSE]
        /\ fresh = [s \in Slots |-> FALSE]
        /\ dirs = Ancestors /\ files = {} /\ hist = <<>> /\ todo = 0
Setup == /\ todo = 0 /\ hist = <<>>
         /\ \E n \in {Rnd(6..30)} : todo' = n
         /\ UNCHANGED <<path, set, fresh, dirs, files, hist>>
SepS == {"/", "/", "/", "//", "\\", "///", "/./"}
RTok(k) == [i \in 1..k |-> Rnd(Toks)]
RSep(k) == [i \in 1..k |-> Rnd(SepS)]
RECURSIVE Text(_, _)
Text(ts, ss) == IF ts = <<>> THEN <<>> ELSE <<Head(ss), Head(ts)[1]>> \o Text(Tail(ts), Tail(ss))
Trail == {"", "", "/", "//"}
Names(p) == [i \in 1..Len(p) |-> p[i][1]]
(* what an observer may see of a slot after an operation *)
See(s, pp, fr, dd, ff) ==
  [s |-> s, path |-> Names(pp), name |-> Name(pp), ext |-> Ext(pp),
   known |-> Known(pp), fresh |-> fr, ex |-> pp \in dd \cup ff,
   dir |-> pp \in dd, file |-> pp \in ff]
Log(o, s, a, r) ==
  hist' = Append(hist, [op |-> o, s |-> s, a |-> a, r |-> r,
     see |-> {See(u, path'[u], fresh'[u], dirs', files') : u \in {v \in Slots : set'[v]}}])
Put(s, pp, fr) == /\ path' = [path EXCEPT ![s] = pp] /\ set' = [set EXCEPT ![s] = TRUE]
                  /\ fresh' = [fresh EXCEPT ![s] = fr]
Go(s) == todo > 0 /\ todo' = todo - 1 /\ set[s]
Ends(ts, tr) == IF ts = <<>> THEN "" ELSE tr
New == /\ todo > 0 /\ todo' = todo - 1
       /\ \E s \in {Rnd(Slots)}, k \in {Rnd(0..MaxTok)}, ab \in {Rnd(BOOLEAN)}, tr \in {Rnd(Trail)} :
          \E ts \in {RTok(k)}, ss \in {RSep(k)} :
          \* a relative path does not start with a separator
          /\ IF ab \/ k = 0 THEN TRUE ELSE ts[1][1] # ""
          /\ LET first == IF ab THEN Rnd({"/", "/", "//", "/./", "/../"}) ELSE ""
              tx == IF k = 0 THEN <<first>> ELSE <<first, ts[1][1]>> \o Text(Tail(ts), Tail(ss)) \o <<tr>>
             IN /\ Put(s, Walk(IF ab THEN <<>> ELSE Cwd, ts), TRUE)
             /\ UNCHANGED <<dirs, files>>
             /\ Log("new", s, tx, 0)
AppendOp == \E s \in {Rnd(Slots)}, k \in {Rnd(0..MaxTok)}, tr \in {Rnd(Trail)}, first \in {Rnd({"", "", "/", "./"})} :
       /\ Go(s)
       /\ \E ts \in {RTok(k)}, ss \in {RSep(k)} :
          LET tx == IF k = 0 THEN <<first>> ELSE <<first, ts[1][1]>> \o Text(Tail(ts), Tail(ss)) \o <<tr>>
          IN /\ Put(s, Walk(path[s], ts), TRUE)
             /\ UNCHANGED <<dirs, files>>
             /\ Log("app", s, tx, 0)
Copy == \E s \in {Rnd(Slots)}, t \in {Rnd(Slots)}, o \in {Rnd({"copy", "asg"})} :
       /\ Go(t) /\ (o = "asg" => set[s]) /\ (o = "copy" => s # t)
       /\ Put(s, path[t], fresh[t])
       /\ UNCHANGED <<dirs, files>>
       /\ Log(o, s, <<t>>, 0)
Parent == \E s \in {Rnd(Slots)}, t \in {Rnd(Slots)} :
       /\ Go(t) /\ s # t
       /\ Put(s, Up(path[t]), TRUE)
       /\ UNCHANGED <<dirs, files>>
       /\ Log("par", s, <<t>>, 0)
Stale(s) == fresh' = [u \in Slots |-> u = s]
(* Environment: a file appears, an entry disappears *)
Touch == \E s \in {Rnd(Slots)} :
       /\ FsOps /\ Go(s) /\ Below(path[s]) /\ Fits(path[s]) /\ ~Exists(path[s]) /\ Up(path[s]) \in dirs
       /\ files' = files \cup {path[s]} /\ UNCHANGED <<path, set, dirs>>
       /\ Stale(0) /\ Log("touch", s, <<>>, 0)
Remove == \E s \in {Rnd(Slots)} :
       /\ FsOps /\ Go(s) /\ Below(path[s]) /\ Exists(path[s]) /\ Children(path[s]) = {}
       /\ files' = files \ {path[s]} /\ dirs' = dirs \ {path[s]} /\ UNCHANGED <<path, set>>
       /\ Stale(0) /\ Log("remove", s, <<>>, 0)
Mkdir == \E s \in {Rnd(Slots)} :
       /\ FsOps /\ Go(s) /\ Below(path[s]) /\ Fits(path[s])
       /\ LET ok == ~Exists(path[s]) /\ Up(path[s]) \in dirs IN
          /\ dirs' = IF ok THEN dirs \cup {path[s]} ELSE dirs
          /\ UNCHANGED <<path, set, files>> /\ Stale(s)
          /\ Log("mkdir", s, <<>>, IF ok THEN 1 ELSE 0)
Mkdirs == \E s \in {Rnd(Slots)} :
       /\ FsOps /\ Go(s) /\ Below(path[s]) /\ Fits(path[s])
       /\ LET pre == {SubSeq(path[s], 1, k) : k \in 0..Len(path[s])}
              ok == path[s] \notin dirs /\ pre \cap files = {}
          IN /\ dirs' = IF ok THEN dirs \cup pre ELSE dirs
             /\ UNCHANGED <<path, set, files>> /\ Stale(s)
             /\ Log("mkdirs", s, <<>>, IF ok THEN 1 ELSE 0)
Ls == \E s \in {Rnd(Slots)} :
       /\ FsOps /\ Go(s) /\ Prefix(Cwd, path[s]) /\ fresh[s]
       /\ UNCHANGED <<path, set, fresh, dirs, files>>
       /\ Log("ls", s, <<>>, {Names(q) : q \in IF path[s] \in dirs THEN Children(path[s]) ELSE {}})
Next == Setup \/ New \/ AppendOp \/ Copy \/ Parent \/ Touch \/ Remove \/ Mkdir \/ Mkdirs \/ Ls
(* a file system is a tree of folders with files as leaves *)
Tree == /\ \A p \in dirs \cup files : p # <<>> => Up(p) \in dirs
        /\ dirs \cap files = {}
Resolved == \A s \in Slots : \A i \in 1..Len(path[s]) : path[s][i][1] \notin {"", ".", ".."}
Inside == \A p \in (dirs \cup files) \ Ancestors : Below(p)
Emit == (todo = 0 /\ hist # <<>>) => PrintT("@@" \o ToJson(hist))
=============================================================================
