----------------------------- MODULE RenderTrace -----------------------------
(* Accepts the executions recorded from the real renderer: every recorded    *)
(* event must be the corresponding action of Render.                         *)
EXTENDS Render, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<vars, tr, l>>
Log == Traces[tr].log
TInit == /\ tr \in DOMAIN Traces /\ l = 1
         /\ Start([w |-> Traces[tr].w, h |-> Traces[tr].h,
                   spp |-> Traces[tr].spp, n |-> Traces[tr].n])
Is(e) == l <= Len(Log) /\ Log[l].e = e /\ l' = l + 1 /\ UNCHANGED tr
TEnter == /\ Is("enter") /\ Enter(Log[l].t, Log[l].k)
TLeave == /\ Is("leave") /\ Leave(Log[l].t, Log[l].k)
          (* every pixel of the tile got the same, right, number of samples *)
          /\ Log[l].lo = cfg.spp /\ Log[l].hi = cfg.spp
          /\ Log[l].total = cfg.spp * Area(cfg.w, cfg.h, Log[l].k)
TEnd == /\ Is("end") /\ left = {} /\ \A t \in DOMAIN tile : tile[t] = <<>>
        /\ Log[l].outside = 0
        /\ gone' = DOMAIN tile /\ UNCHANGED <<cfg, left, tile, count>>
TNext == TEnter \/ TLeave \/ TEnd
Progress == PrintT("@@" \o ToJson(<<tr, l - 1, Len(Log)>>))
=============================================================================
