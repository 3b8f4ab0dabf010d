----------------------------- MODULE TraceBase -----------------------------
(* Shared by the trace modules: reads the observation lines, walks over them
   and reports the numbers of those which the specification does not allow.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
JInit == l = 1 /\ bad = <<>> /\ TLCSet(7, 0)
JCount(n) == TLCSet(7, TLCGet(7) + n)       \* n decisions that really compared something
JDone == /\ l = Len(Trace) + 1 /\ PrintT(<<"JUDGED", TLCGet(7)>>) /\ PrintT(<<"VERDICT", Len(Trace), bad>>)
         /\ l' = l + 1 /\ UNCHANGED bad
(* stateless observations *)
JStep(ok) == /\ l <= Len(Trace) /\ l' = l + 1
             /\ bad' = IF ok THEN bad ELSE Append(bad, l)
JNext(ok) == JStep(ok) \/ JDone
(* next line that starts a new group (ev = "reset") at or after i *)
NextReset(i) == IF \E j \in i..Len(Trace) : Trace[j].ev = "reset"
                THEN CHOOSE j \in i..Len(Trace) : Trace[j].ev = "reset" /\ \A k \in i..(j - 1) : Trace[k].ev # "reset"
                ELSE Len(Trace) + 1
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol
=============================================================================
