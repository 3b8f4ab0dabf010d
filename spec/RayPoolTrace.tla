---------------------------- MODULE RayPoolTrace ----------------------------
(* Replays recorded evaluations of the real tracer. Ray values are the bits of
   start and direction. Observable steps:
    enter/exit  a material is asked to shade a ray, and answers
    medium      a medium filters what a ray has seen
    probe       rays taken from the context for a moment (and overwritten)
    isect       an object or shadow test was asked about a ray
    idle        no evaluation is going on
    result      brightness of evaluation `key`, the same each time            *)
EXTENDS TraceBase
VARIABLES stk, memo
vars == <<l, bad, stk, memo>>
Init == JInit /\ stk = <<>> /\ memo = <<>>
X == Trace[l]
Top == stk[Len(stk)]
Frame(x) == [ray |-> x.ray, val |-> x.val, level |-> x.level]
Enter == IF stk = <<>> THEN X.level = 1
         ELSE IF X.level = Top.level THEN Frame(X) = Top                       \* handed on
         ELSE /\ X.level = Top.level + 1                                        \* one deeper, with a ray of its own
              /\ \A i \in 1..Len(stk) : stk[i].ray # X.ray
Exit == stk # <<>> /\ Frame(X) = Top
Medium == /\ X.val = X.was /\ \A i \in 1..Len(stk) : stk[i].ray # X.ray
          /\ X.level = 1 + (IF stk = <<>> THEN 0 ELSE Top.level)
Probe == /\ \A i, j \in 1..Len(X.rays) : i # j => X.rays[i] # X.rays[j]
         /\ \A i \in 1..Len(X.rays), j \in 1..Len(stk) : X.rays[i] # stk[j].ray
Idle == stk = <<>> /\ X.level = 0 /\ X.msg = ""
Known == X.key <= Len(memo) /\ memo[X.key] # <<>>
Result == ~Known \/ \A i \in 1..3 : Near(memo[X.key][i], X.c[i], 3)
Ok == CASE X.ev = "enter" -> Enter [] X.ev = "exit" -> Exit [] X.ev = "medium" -> Medium [] X.ev = "probe" -> Probe
        [] X.ev = "isect" -> X.a = X.b [] X.ev = "idle" -> Idle [] X.ev = "result" -> Result
SetAt(s, i, v) == IF i <= Len(s) THEN [s EXCEPT ![i] = v] ELSE s \o [j \in 1..(i - Len(s)) |-> IF j = i - Len(s) THEN v ELSE <<>>]
Step ==
  /\ l <= Len(Trace)
  /\ IF X.ev = "reset" THEN stk' = <<>> /\ memo' = <<>> /\ l' = l + 1 /\ UNCHANGED bad
     ELSE IF ~Ok THEN /\ bad' = Append(bad, l) /\ l' = NextReset(l + 1) /\ UNCHANGED <<stk, memo>>
     ELSE /\ l' = l + 1 /\ UNCHANGED bad
          /\ JCount(1)
          /\ stk' = IF X.ev = "enter" THEN Append(stk, Frame(X)) ELSE IF X.ev = "exit" THEN SubSeq(stk, 1, Len(stk) - 1) ELSE stk
          /\ memo' = IF X.ev = "result" /\ ~Known THEN SetAt(memo, X.key, X.c) ELSE memo
Done == JDone /\ UNCHANGED <<stk, memo>>
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
