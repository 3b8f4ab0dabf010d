----------------------------- MODULE ViewerTrace -----------------------------
(* logs of real viewers *)
EXTENDS TraceBase
W == INSTANCE ViewerUI
O == INSTANCE ViewerObs
VARIABLES us, s
E == Trace[l]
AInit == JInit /\ us = <<W!U0>> /\ s = O!Obs0(1)
First(n, P(_)) == IF \E k \in 1..n : P(k) THEN CHOOSE k \in 1..n : P(k) /\ \A j \in 1..(k - 1) : ~P(j) ELSE 0
ClassOf(v) == LET P(k) == W!Same(us[k], v) k == First(Len(us), P) IN IF k = 0 THEN Len(us) + 1 ELSE k
Asked(r, Sz(_)) == LET P(k) == W!For(us[k], r) /\ Sz(us[k]) k == First(Len(us), P) IN k
Seen == (* the observation in the observer's terms *)
  CASE E.ev = "send" -> LET v == TLCEval(W!UI(us[Len(us)], E.e)) IN
                        [ev |-> "send", c |-> TLCEval(ClassOf(v)), touch |-> W!About(us[Len(us)], E.e), paused |-> v.paused, drag |-> v.drag]
    [] E.ev = "preview" -> LET Sz(v) == W!Level(v, E.r) = 0 IN
                           [ev |-> "preview", c |-> Asked(E.r, Sz)]
    [] E.ev = "bake" -> LET Sz(v) == W!Level(v, E.r) # -1 k == Asked(E.r, Sz) IN
                        [ev |-> "bake", c |-> k, lev |-> IF k = 0 THEN -1 ELSE W!Level(us[k], E.r)]
    [] OTHER -> E
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF E.ev = "reset" THEN us' = <<W!U0>> /\ s' = O!Obs0(1) /\ bad' = bad
           ELSE LET e == TLCEval(Seen) IN
                /\ us' = IF E.ev = "send" THEN Append(us, TLCEval(W!UI(us[Len(us)], E.e))) ELSE us
                /\ s' = O!ObsNext(s, e)
                /\ bad' = IF O!Ok(s, e) THEN bad ELSE Append(bad, l)
Next == Step \/ (JDone /\ UNCHANGED <<us, s>>)
Spec == AInit /\ [][Next]_<<l, bad, us, s>>
=============================================================================
