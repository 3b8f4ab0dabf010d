-------------------------------- MODULE Viewer --------------------------------
(* The viewer's loop, its bakes in the background, its user and its server, with
   the observer of ViewerObs watching. Views are 1 and 2.                      *)
EXTENDS ViewerObs
CONSTANTS MaxEv, MaxBakes, MaxFails
VARIABLES pc,       \* top, paint1, ask, wait, paint2; fetch1, fetch2 while a preview is awaited
          evs,      \* sent, not yet handled
          view, paused, drag,
          dirty,    \* the view was touched and not yet previewed
          wdirty,   \* the window has to be painted
          img,      \* id of the last image accepted (0: the placeholder)
          baking, want, level,
          req,      \* bake under way: none, flight (on its way to the server), held, back
          res,      \* answer on its way back
          nbake, nfail, nid,
          o, fine
vars == <<pc, evs, view, paused, drag, dirty, wdirty, img, baking, want, level, req, res, nbake, nfail, nid, o, fine>>
Sees(e) == o' = ObsNext(o, e) /\ fine' = (fine /\ Ok(o, e))
Blind == UNCHANGED <<o, fine>>
NoReq == [st |-> "none", c |-> 0, lev |-> 0]
VInit == /\ pc = "top" /\ evs = <<>> /\ view = 1 /\ paused = FALSE /\ drag = FALSE /\ dirty = TRUE /\ wdirty = TRUE
         /\ img = 0 /\ baking = FALSE /\ want = FALSE /\ level = 0 /\ req = NoReq /\ res = 0 /\ nbake = 0 /\ nfail = 0 /\ nid = 0
         /\ o = Obs0(1) /\ fine = TRUE
Sent == Len(o.q) - 1
Ends(s, k) == LET z == s.q[Len(s.q)] IN
  CASE k = "move" -> [ev |-> "send", c |-> 3 - z.c, touch |-> TRUE, paused |-> z.paused, drag |-> z.drag]
    [] k = "zero" -> [ev |-> "send", c |-> z.c, touch |-> TRUE, paused |-> z.paused, drag |-> z.drag]
    [] k = "pause" -> [ev |-> "send", c |-> z.c, touch |-> FALSE, paused |-> ~z.paused, drag |-> z.drag]
    [] k = "press" -> [ev |-> "send", c |-> z.c, touch |-> TRUE, paused |-> z.paused, drag |-> TRUE]
    [] k = "release" -> [ev |-> "send", c |-> z.c, touch |-> FALSE, paused |-> z.paused, drag |-> FALSE]
    [] k = "paint" -> [ev |-> "send", c |-> z.c, touch |-> FALSE, paused |-> z.paused, drag |-> z.drag]
User == /\ Sent < MaxEv
        /\ \E k \in {"move", "zero", "pause", "press", "release", "paint"} : evs' = Append(evs, k) /\ Sees(Ends(o, k))
        /\ UNCHANGED <<pc, view, paused, drag, dirty, wdirty, img, baking, want, level, req, res, nbake, nfail, nid>>
RECURSIVE After(_, _)
After(s, k) == IF k = <<>> THEN s
  ELSE LET a == Head(k) IN
       After([s EXCEPT !.view = IF a = "move" THEN 3 - @ ELSE @, !.paused = IF a = "pause" THEN ~@ ELSE @,
                       !.drag = IF a = "press" THEN TRUE ELSE IF a = "release" THEN FALSE ELSE @,
                       !.dirty = @ \/ a \in {"move", "zero", "press"}, !.wdirty = @ \/ a = "paint"], Tail(k))
Drain == LET s == After([view |-> view, paused |-> paused, drag |-> drag, dirty |-> dirty, wdirty |-> wdirty], evs) IN
         view' = s.view /\ paused' = s.paused /\ drag' = s.drag /\ dirty' = s.dirty /\ wdirty' = s.wdirty /\ evs' = <<>>
Top == /\ pc = "top" /\ pc' = "paint1" /\ Blind
       /\ IF evs = <<>> THEN UNCHANGED <<evs, view, paused, drag, dirty, wdirty>> ELSE Drain
       /\ UNCHANGED <<img, baking, want, level, req, res, nbake, nfail, nid>>
(* cancel, then ask for the preview *)
Cancel(p, n) ==
          /\ pc = p /\ pc' = n
          /\ IF dirty /\ baking THEN Sees([ev |-> "cancel"]) ELSE Blind
          /\ IF dirty THEN want' = FALSE /\ level' = 0 ELSE UNCHANGED <<want, level>>
          /\ UNCHANGED <<evs, view, paused, drag, dirty, wdirty, img, baking, req, res, nbake, nfail, nid>>
Fetch(p, n) ==
          /\ pc = p /\ pc' = n
          /\ IF dirty THEN Sees([ev |-> "preview", c |-> view]) ELSE Blind
          /\ UNCHANGED <<evs, view, paused, drag, dirty, wdirty, img, baking, want, level, req, res, nbake, nfail, nid>>
Got(p, n) ==
          /\ pc = p /\ pc' = n
          /\ IF ~dirty THEN Blind /\ UNCHANGED <<dirty, wdirty, img, nid, nfail>>
             ELSE /\ dirty' = FALSE /\ wdirty' = TRUE
                  /\ \/ Sees([ev |-> "pans", ok |-> 1, id |-> nid + 1]) /\ img' = nid + 1 /\ nid' = nid + 1 /\ nfail' = nfail
                     \/ nfail < MaxFails /\ Sees([ev |-> "pans", ok |-> 0, id |-> 0]) /\ img' = 0 /\ nid' = nid /\ nfail' = nfail + 1
          /\ UNCHANGED <<evs, view, paused, drag, baking, want, level, req, res, nbake>>
Paint(p, n) ==
          /\ pc = p /\ pc' = n
          /\ IF wdirty THEN Sees([ev |-> "publish", id |-> img]) ELSE Blind
          /\ wdirty' = FALSE
          /\ UNCHANGED <<evs, view, paused, drag, dirty, img, baking, want, level, req, res, nbake, nfail, nid>>
Repaint == \/ Cancel("paint1", "fetch1") \/ Fetch("fetch1", "got1") \/ Got("got1", "show1") \/ Paint("show1", "ask")
           \/ Cancel("paint2", "fetch2") \/ Fetch("fetch2", "got2") \/ Got("got2", "show2") \/ Paint("show2", "top")
Ask == /\ pc = "ask" /\ pc' = "wait" /\ Blind
       /\ IF ~baking /\ ~drag /\ ~dirty /\ ~paused
          THEN baking' = TRUE /\ want' = TRUE /\ req' = [st |-> "flight", c |-> view, lev |-> IF level < 3 THEN level ELSE 3]
          ELSE UNCHANGED <<baking, want, req>>
       /\ UNCHANGED <<evs, view, paused, drag, dirty, wdirty, img, level, res, nbake, nfail, nid>>
WaitEvent == /\ pc = "wait" /\ evs # <<>> /\ Drain /\ pc' = "paint2" /\ Blind
             /\ UNCHANGED <<img, baking, want, level, req, res, nbake, nfail, nid>>
WaitBake == /\ pc = "wait" /\ req.st = "back" /\ pc' = "paint2" /\ Blind /\ req' = NoReq /\ res' = 0 /\ baking' = FALSE
            /\ IF res > 0 /\ want /\ ~dirty /\ ~drag THEN img' = res /\ wdirty' = TRUE ELSE UNCHANGED <<img, wdirty>>
            /\ level' = IF want THEN level + 1 ELSE level      \* a result nobody wants any more does not count
            /\ UNCHANGED <<evs, view, paused, drag, dirty, want, nbake, nfail, nid>>
Arrive == /\ req.st = "flight" /\ req' = [req EXCEPT !.st = "held"] /\ Sees([ev |-> "bake", c |-> req.c, lev |-> req.lev])
          /\ UNCHANGED <<pc, evs, view, paused, drag, dirty, wdirty, img, baking, want, level, res, nbake, nfail, nid>>
Answer == /\ req.st = "held" /\ nbake < MaxBakes /\ nbake' = nbake + 1 /\ req' = [req EXCEPT !.st = "back"]
          /\ \/ Sees([ev |-> "bans", res |-> "ok", id |-> nid + 1]) /\ nid' = nid + 1 /\ res' = nid + 1 /\ nfail' = nfail
             \/ nfail < MaxFails /\ Sees([ev |-> "bans", res |-> "err", id |-> 0]) /\ nid' = nid /\ res' = 0 /\ nfail' = nfail + 1
          /\ UNCHANGED <<pc, evs, view, paused, drag, dirty, wdirty, img, baking, want, level>>
Quiet == pc = "wait" /\ evs = <<>> /\ req.st \in {"none", "held"} /\ ~dirty /\ ~wdirty
Settle == /\ Quiet /\ o.h < Len(o.q) /\ Sees([ev |-> "settle"])
          /\ UNCHANGED <<pc, evs, view, paused, drag, dirty, wdirty, img, baking, want, level, req, res, nbake, nfail, nid>>
Loop == Top \/ Repaint \/ Ask \/ WaitEvent \/ WaitBake
VSpec == VInit /\ [][User \/ Loop \/ Arrive \/ Answer \/ Settle]_vars /\ WF_vars(Loop) /\ WF_vars(Arrive)
Fine == fine
QuietFine == Quiet => Ok(o, [ev |-> "settle"])
(* the same, said about the viewer itself *)
OneBake == baking <=> req.st # "none"
Shows == pc = "wait" /\ ~dirty /\ img > 0 => o.ids[img].c = view
GoesOn == []<>(Quiet \/ pc = "wait")
EndsQuiet == <>[](Quiet \/ req.st = "back")
(* reachable, as a check of the model: full size for the second view *)
NeverSharp == ~(Quiet /\ req.lev = 3 /\ view = 2)
=============================================================================
