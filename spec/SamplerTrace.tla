---------------------------- MODULE SamplerTrace ----------------------------
(* Replays recorded executions of the real sampler in Sampler.
   Events: bulk (a whole history on a large image or of many passes), reset (new sampler of w*h pixels), call/b/e/ret (a request, begin
   and end of one evaluation by worker g, return), agg (a whole request: how
   often each pixel was evaluated, and how often two evaluations of a pixel
   overlapped), img (mean image and deviation image).                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES phase, req, total, done, cnt, active, scn, l, bad
svars == <<phase, req, total, done, cnt, active>>
S == INSTANCE Sampler WITH NPix <- 0, Workers <- {}, Ks <- {}, MaxTotal <- 0

Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]

Reset == /\ E.ev = "reset"
         /\ phase' = "idle" /\ req' = 0 /\ total' = 0
         /\ done' = [p \in 1..(E.w * E.h) |-> 0]
         /\ cnt' = [p \in 1..(E.w * E.h) |-> 0]
         /\ active' = [w \in {} |-> 0]
         /\ scn' = E
Call == E.ev = "call" /\ S!Call(E.k) /\ UNCHANGED scn
Begin == E.ev = "b" /\ E.p \in DOMAIN done /\ S!Begin(E.g, E.p) /\ UNCHANGED scn
End == E.ev = "e" /\ S!End(E.g, E.p) /\ UNCHANGED scn
Return == E.ev = "ret" /\ S!Return /\ UNCHANGED scn
(* one whole request: Call, evaluations of every pixel, Return *)
Agg == /\ E.ev = "agg" /\ phase = "idle"
       /\ E.stray = 0 /\ E.overlap = 0
       /\ Len(E.cnt) = Cardinality(DOMAIN cnt)
       /\ \A p \in DOMAIN cnt : E.cnt[p] = E.k
       /\ req' = E.k /\ total' = total + E.k
       /\ done' = [p \in DOMAIN done |-> E.k]
       /\ cnt' = [p \in DOMAIN cnt |-> cnt[p] + E.k]
       /\ UNCHANGED <<phase, active, scn>>
Img == /\ E.ev = "img" /\ phase = "idle"
       /\ E.w = scn.w /\ E.h = scn.h
       /\ \A p \in DOMAIN cnt : \A c \in 1..3 :
            /\ E.img[p][c] = S!ImageTimesN(scn.nan, p, total, c - 1)
            /\ total > 1 /\ ~S!InfImage(scn.nan, p, total, c - 1) => E.dev[p][c] = S!VarTimesNN(scn.nan, p, total, c - 1)
       /\ UNCHANGED svars /\ UNCHANGED scn

Bulk == /\ E.ev = "bulk" /\ phase = "idle"
        /\ E.stray = 0 /\ E.overlap = 0
        /\ E.iw = E.w /\ E.ih = E.h
        /\ S!BulkOK(E.nan, E.w * E.h, E.calls, E.lo, E.hi, E.pix)
        /\ UNCHANGED svars /\ UNCHANGED scn

Step == Bulk \/ Reset \/ Call \/ Begin \/ End \/ Return \/ Agg \/ Img
NextReset(i) == IF \E j \in i..Len(Trace) : Trace[j].ev = "reset"
                THEN CHOOSE j \in i..Len(Trace) : Trace[j].ev = "reset" /\ \A k \in i..(j - 1) : Trace[k].ev # "reset"
                ELSE Len(Trace) + 1
Init == /\ phase = "idle" /\ req = 0 /\ total = 0 /\ done = <<>> /\ cnt = <<>> /\ active = <<>>
        /\ scn = 0 /\ l = 1 /\ bad = <<>>
Next == \/ /\ l <= Len(Trace)
           /\ IF ENABLED Step
              THEN Step /\ l' = l + 1 /\ UNCHANGED bad
              ELSE /\ bad' = Append(bad, l) /\ l' = NextReset(l + 1)
                   /\ UNCHANGED svars /\ UNCHANGED scn
        \/ /\ l = Len(Trace) + 1 /\ PrintT(<<"VERDICT", Len(Trace), bad>>)
           /\ l' = l + 1 /\ UNCHANGED <<bad, scn>> /\ UNCHANGED svars
Spec == Init /\ [][Next]_<<svars, scn, l, bad>>
=============================================================================
