------------------------------- MODULE OutHist -------------------------------
(* Where the film puts its image.  A tree of files and folders below Cwd,    *)
(* some of them not to be written by the user; a requested name; a picture.  *)
EXTENDS Path, TLC, Json, FiniteSets
CONSTANTS MaxEntries, MaxSide
VARIABLES dirs, files, locked, req, pic, todo
vars == <<dirs, files, locked, req, pic, todo>>
Rnd(S) == RandomElement(S)
Cwd == <<<<"w", "">>, <<"d", "">>>>
Good == {"bmp", "tga", "ppm", "png", "jpg", "jpeg", "tif", "tiff"}
Toks == {<<"a", "">>, <<"b", "">>, <<"c.png", "png">>, <<"a.ppm", "ppm">>, <<"d.bmp", "bmp">>, <<"a.tga", "tga">>,
         <<"x y.tif", "tif">>, <<"e.tiff", "tiff">>, <<"f.jpg", "jpg">>, <<"g.jpeg", "jpeg">>, <<"h.txt", "txt">>,
         <<"b.ppmx", "ppmx">>, <<".ppm", "">>, <<"a.b.png", "png">>, <<"png.a", "a">>, <<"b.", "">>,
         <<"b.ppm", "ppm">>, <<"h.txt.ppm", "ppm">>, <<"ppm", "">>}
Plain == {<<"a", "">>, <<"b", "">>, <<"c.png", "png">>}
Dots == {<<".", "">>, <<"..", "">>, <<"", "">>}
Init == dirs = {<<>>, <<Cwd[1]>>, Cwd} /\ files = {} /\ locked = {} /\ req = [ab |-> FALSE] /\ pic = [w |-> 0] /\ todo = 0
Setup == /\ todo = 0 /\ \E n \in {Rnd(1..MaxEntries)} : todo' = n
         /\ UNCHANGED <<dirs, files, locked, req, pic>>
Grow == /\ todo > 1 /\ todo' = todo - 1
        /\ \E p \in {Rnd(dirs \ {<<>>})}, t \in {Rnd(IF Rnd(1..2) = 1 THEN Toks ELSE Plain)}, dir \in {Rnd(1..5) > 2}, lk \in {Rnd(1..4) = 1} :
           LET q == Append(p, t)
           IN IF q \in dirs \cup files \/ Len(q) > 5 THEN UNCHANGED <<dirs, files, locked>>
              ELSE /\ dirs' = IF dir THEN dirs \cup {q} ELSE dirs
                   /\ files' = IF dir THEN files ELSE files \cup {q}
                   /\ locked' = IF lk THEN locked \cup {q} ELSE locked
        /\ UNCHANGED <<req, pic>>
(* --------------------------- what is owed ------------------------------ *)
Unpicked(p) == <<p[Len(p)][1] \o ".ppm", "ppm">>
Target(p) == IF Ext(p) \in Good THEN p ELSE Append(Up(p), Unpicked(p))
(* a name can not be used when a folder has it, when its folder is missing   *)
(* or closed, or when a file has it that can not be replaced                 *)
Storable(p) == /\ p \notin dirs /\ Up(p) \in dirs /\ Up(p) \notin locked
               /\ Target(p) \notin dirs /\ ~(Target(p) \in files /\ Target(p) \in locked)
RTok(k) == [i \in 1..k |-> Rnd(IF Rnd(1..4) = 1 THEN Dots ELSE IF Rnd(1..2) = 1 THEN Plain ELSE Toks)]
(* names of things that exist, or would be below them *)
Near == {SubSeq(p, 3, Len(p)) : p \in {q \in dirs \cup files : Prefix(Cwd, q) /\ q # Cwd}}
Ask == /\ todo = 1 /\ todo' = 99
       /\ \E k \in {Rnd(1..3)}, ab \in {Rnd(BOOLEAN)}, tr \in {Rnd({"", "", "/", "//", "/."})}, near \in {Near # {} /\ Rnd(1..2) = 1},
            how \in {Rnd(1..3)} :
         \E ts0 \in {RTok(k)}, nr \in {IF near THEN Rnd(Near) ELSE <<>>} :
         LET ts == CASE ~near -> ts0
                     [] near /\ how = 1 -> nr
                     [] near /\ how = 2 -> Append(nr, ts0[1])
                     [] near /\ how = 3 -> Append(Up(nr), ts0[1])
             p == Walk(Cwd, ts)
         IN req' = [ab |-> ab, names |-> [i \in 1..Len(ts) |-> ts[i][1]], tr |-> tr, p |-> p]
       /\ UNCHANGED <<dirs, files, locked, pic>>
(* requests stay below the working directory and do not start with a separator *)
Fine == /\ Prefix(Cwd, req.p) /\ req.names # <<>> /\ req.names[1] # ""
        /\ \A k \in 1..Len(req.names) : req.names[k] # ".." \/ k > 1
(* samples weigh wt quarters; a channel: 0..255, 300 is brighter than that, 400 darker than black *)
Chan(k) == Rnd({0, 255, 300, Rnd(0..(255 + 0 * k)), Rnd(0..(255 + 0 * k))})
Pix(k) == LET d == Rnd(1..(6 + 0 * k)) IN
          IF d > 1 THEN <<Chan(k), Chan(k), Chan(k)>>
          ELSE [c \in 1..3 |-> IF c = 1 + (k % 3) THEN 400 ELSE Rnd(150..(255 + 0 * k))]
Shown(c) == IF c = 300 THEN 255 ELSE IF c = 400 THEN 0 ELSE c
Draw == /\ todo = 99 /\ todo' = 100
        /\ \E w \in {Rnd(1..MaxSide)}, h \in {Rnd(1..MaxSide)} :
           \E px \in {[k \in 1..(w * h) |-> Pix(k)]}, n \in {[k \in 1..(w * h) |-> Rnd({0, 1, 1, 2, 3 + 0 * k})]} :
             pic' = [w |-> w, h |-> h, wt |-> Rnd({1, 2, 4, 9 + 0 * w}), px |-> px, n |-> n,
                     see |-> [k \in 1..(w * h) |-> IF n[k] = 0 THEN <<0, 0, 0>> ELSE [c \in 1..3 |-> Shown(px[k][c])]]]
        /\ UNCHANGED <<dirs, files, locked, req>>
Next == Setup \/ Grow \/ Ask \/ Draw
Names(p) == [i \in 1..Len(p) |-> p[i][1]]
All(S) == {Names(p) : p \in S}
Emit == (todo = 100 /\ Fine) => PrintT("@@" \o ToJson(
  [dirs |-> All(dirs), files |-> All(files), locked |-> All(locked),
   req |-> req, pic |-> pic, ok |-> Storable(req.p),
   path |-> Names(req.p), target |-> IF req.p = <<>> THEN <<>> ELSE Names(Target(req.p)), ext |-> Ext(Target(req.p))]))
(* laws: a storable request has one target, in the folder asked for *)
Sound == (todo = 100 /\ Fine /\ Storable(req.p)) =>
           /\ Up(Target(req.p)) = Up(req.p) /\ Ext(Target(req.p)) \in Good
           /\ Up(Target(req.p)) \in dirs /\ Target(req.p) \notin dirs
=============================================================================
