------------------------------ MODULE WatchTrace ------------------------------
(* logs of real watchers, one after the other; "reset" gives the arguments *)
EXTENDS TraceBase
T == INSTANCE Watch WITH MaxEdits <- 0, kind <- 0, seen <- 0, pc <- 0, src <- 0, bin <- 0, live <- 0, o <- 0, fine <- 0
VARIABLES s, conf
AInit == JInit /\ s = T!O0 /\ conf = <<>>
E == Trace[l]
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF E.ev = "reset" THEN s' = T!O0 /\ conf' = E /\ bad' = bad
           ELSE /\ conf' = conf
                /\ IF T!Allowed(conf, s, E) THEN s' = T!OStep(s, E) /\ bad' = bad
                   ELSE s' = T!OStep(s, E) /\ bad' = Append(bad, l)
Next == Step \/ (JDone /\ UNCHANGED <<s, conf>>)
Spec == AInit /\ [][Next]_<<l, bad, s, conf>>
=============================================================================
