------------------------------ MODULE ViewerObs ------------------------------
(* What can be observed of an interactive viewer by its user and its server,
   and what of it is allowed. Observations, in the order they were made:
     send c touch paused drag   the user did something; c: what the view then is
                                (equal numbers for equal views), touch: whether
                                it was about the view, paused and drag: whether
                                the viewer then is paused or dragging
     preview c                  a preview was asked for, of view c (0: of no view
                                the user ever chose, or of a wrong size)
     pans ok id                 it was answered, with image id
     bake c lev                 a bake was asked for; lev: 0 1/8 of the window's
                                size, 1 1/4, 2 1/2, 3 full, anti-aliased (-1 other)
     bans res id                it was answered: "ok", "err" or "empty"
     cancel
     publish id                 image id is now on the window, 0: the placeholder
     settle                     the viewer has handled all that was sent, and
                                has been given time to ask for a bake
     dead, exit                 the window was closed; the viewer ended
   The viewer handles what the user does some time after it was sent: q is what
   was sent, at least the first h were handled.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoBake == [n |-> 0, c |-> 0, lev |-> 0, h |-> 1, res |-> "", id |-> 0]
Obs0(c) == [q |-> <<[c |-> c, touch |-> TRUE, paused |-> FALSE, drag |-> FALSE]>>,
            h |-> 1, ans |-> 1, pv |-> 0, pok |-> 0, ids |-> <<>>, b |-> NoBake, last |-> NoBake,
            cans |-> 0, tch |-> 0, shown |-> 0, dead |-> FALSE, owed |-> FALSE]
Idle(r) == ~r.paused /\ ~r.drag
Up(l) == IF l < 3 THEN l + 1 ELSE 3
Touches(q) == Cardinality({k \in DOMAIN q : q[k].touch})
TouchedSince(s, k) == \E i \in (k + 1)..Len(s.q) : s.q[i].touch
MinOf(K) == CHOOSE k \in K : \A j \in K : k <= j
Could(s, from, c) == {k \in from..Len(s.q) : s.q[k].c = c}
Levels(s, c) ==
  LET l == s.last
      nx == IF l.res = "ok" THEN {Up(l.lev)} ELSE {l.lev, Up(l.lev)} IN
  IF l.n = 0 \/ l.c # c THEN {0}
  ELSE IF TouchedSince(s, l.h) THEN nx \cup {0, l.lev} ELSE nx

Ok(s, e) ==
  CASE s.dead -> (e.ev = "exit" => (s.owed => s.cans > 0))
    [] e.ev = "send" -> TRUE
    [] e.ev = "preview" -> Could(s, s.h, e.c) # {}
    [] e.ev = "pans" -> TRUE
    [] e.ev = "bake" -> /\ s.b.n = 0                                     \* one at a time
                        /\ \E k \in Could(s, s.ans, e.c) : Idle(s.q[k])   \* and only while idle
                        /\ e.lev \in Levels(s, e.c)
    [] e.ev = "bans" -> s.b.n # 0
    [] e.ev = "cancel" -> Touches(s.q) > s.tch
    [] e.ev = "publish" -> IF e.id = 0 THEN s.pok = 2 \/ s.pv = 0
                           ELSE /\ e.id \in DOMAIN s.ids
                                /\ Could(s, s.h, s.ids[e.id].c) # {}      \* never outdated
                                /\ (e.id >= s.shown \/ (s.ids[e.id].k = "b" /\ s.ids[s.shown].k = "p"))
    [] e.ev = "settle" ->
         LET z == s.q[Len(s.q)] IN
         /\ s.pv = z.c                                                   \* the view was previewed
         /\ (IF s.pok = 1 THEN s.shown > 0 ELSE s.pok = 2)
         /\ (s.shown > 0 => s.ids[s.shown].c = z.c)                      \* and is what is shown
         /\ (s.b.n # 0 /\ s.b.c # z.c => s.cans > 0)                     \* cancelled
         /\ (Idle(z) => s.b.n # 0)                                       \* goes on asking
         /\ (s.last.res = "ok" /\ s.last.c = z.c /\ ~TouchedSince(s, s.last.h)
              /\ (\A k \in s.last.h..Len(s.q) : Idle(s.q[k])) => s.shown = s.last.id)
    [] e.ev = "dead" -> TRUE
    [] OTHER -> FALSE

ObsNext(s, e) ==
  CASE e.ev = "send" -> [s EXCEPT !.q = Append(@, [c |-> e.c, touch |-> e.touch, paused |-> e.paused, drag |-> e.drag])]
    [] e.ev = "preview" -> LET K == Could(s, s.h, e.c) IN
                           [s EXCEPT !.pv = e.c, !.pok = 0, !.h = IF K = {} THEN @ ELSE MinOf(K)]
    [] e.ev = "pans" -> [s EXCEPT !.pok = IF e.ok = 1 THEN 1 ELSE 2,
                                  !.ids = IF e.ok = 1 THEN Append(@, [c |-> s.pv, k |-> "p"]) ELSE @]
    [] e.ev = "bake" -> LET K == {k \in Could(s, s.ans, e.c) : Idle(s.q[k])} IN
                        [s EXCEPT !.b = [n |-> 1, c |-> e.c, lev |-> e.lev, h |-> IF K = {} THEN s.h ELSE MinOf(K), res |-> "", id |-> 0]]
    [] e.ev = "bans" -> [s EXCEPT !.last = [s.b EXCEPT !.res = e.res, !.id = e.id], !.b = NoBake, !.cans = 0, !.ans = s.h,
                                  !.ids = IF e.res = "ok" THEN Append(@, [c |-> s.b.c, k |-> "b"]) ELSE @]
    [] e.ev = "cancel" -> [s EXCEPT !.cans = @ + 1]
    [] e.ev = "publish" -> [s EXCEPT !.shown = IF e.id \in DOMAIN s.ids THEN e.id ELSE 0]
    [] e.ev = "settle" -> [s EXCEPT !.h = Len(s.q), !.tch = Touches(s.q)]
    [] e.ev = "dead" -> [s EXCEPT !.dead = TRUE, !.owed = (s.b.n # 0)]
    [] OTHER -> s
=============================================================================
