----------------------------- MODULE DrawsTrace -----------------------------
(* Runs of the real sampler. reset: a new image size and scene; run: one
   sampler, fed the passes in the given batches; vals[p][k]: the interned bit
   patterns drawn by the k-th sample of pixel p (Draws!log); img: interned bit
   patterns of the final image, which depends on the total only.              *)
EXTENDS TraceBase
VARIABLES memo, imgs
Pre(a, b) == \A k \in 1..Min2(Len(a), Len(b)) : a[k] = b[k]
Longer(a, b) == IF Len(a) >= Len(b) THEN a ELSE b
Reset == /\ Trace[l].ev = "reset" /\ memo' = <<>> /\ imgs' = [t \in {} |-> <<>>]
(* each pixel has as many samples as were asked for; their draws agree with
   those of all earlier runs *)
RunOk(e) == /\ \A p \in 1..Len(e.vals) : Len(e.vals[p]) = e.total
            /\ memo # <<>> => Len(memo) = Len(e.vals) /\ \A p \in 1..Len(e.vals) : Pre(memo[p], e.vals[p])
            /\ IF e.total \in DOMAIN imgs THEN imgs[e.total] = e.img ELSE TRUE
Run == /\ Trace[l].ev = "run" /\ RunOk(Trace[l])
       /\ memo' = IF memo = <<>> THEN Trace[l].vals ELSE [p \in 1..Len(memo) |-> Longer(memo[p], Trace[l].vals[p])]
       /\ imgs' = IF Trace[l].total \in DOMAIN imgs THEN imgs
                  ELSE [t \in DOMAIN imgs \cup {Trace[l].total} |-> IF t = Trace[l].total THEN Trace[l].img ELSE imgs[t]]
Step == Reset \/ Run
Init == JInit /\ memo = <<>> /\ imgs = <<>>
Next == \/ /\ l <= Len(Trace)
           /\ IF ENABLED Step THEN Step /\ l' = l + 1 /\ UNCHANGED bad
              ELSE bad' = Append(bad, l) /\ l' = l + 1 /\ UNCHANGED <<memo, imgs>>
        \/ JDone /\ UNCHANGED <<memo, imgs>>
Spec == Init /\ [][Next]_<<l, bad, memo, imgs>>
=============================================================================
