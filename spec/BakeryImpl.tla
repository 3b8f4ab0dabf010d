----------------------------- MODULE BakeryImpl -----------------------------
(* The handlers of the server as concurrent processes sharing a mutex: a bake
   takes the lock, is refused or installs a sampler and marks the server busy,
   samples pass by pass without the lock, and takes the lock again to finish.
   A view that cannot be rendered fails while the sampler is made, under the
   lock, before the server is marked busy. Refines Bakery.                    *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Views, Bad, Clients, MaxPass, MaxReq
VARIABLES pc, req, lock, busy, cancel, smplr, n, got, local, pass, answers, nreq
vars == <<pc, req, lock, busy, cancel, smplr, n, got, local, pass, answers, nreq>>
(* smplr: the shared sampler [view, img]; local: the sampler a bake works on *)
Init == /\ pc = [c \in Clients |-> "idle"] /\ req = [c \in Clients |-> 0] /\ lock = 0 /\ busy = FALSE /\ cancel = FALSE
        /\ smplr = [view |-> 0, img |-> {}] /\ n = 1 /\ got = [c \in Clients |-> 0] /\ local = [c \in Clients |-> 0]
        /\ pass = 0 /\ answers = <<>> /\ nreq = 0
Ask(c) == /\ pc[c] = "idle" /\ nreq < MaxReq /\ nreq' = nreq + 1
          /\ \E v \in Views \cup Bad : req' = [req EXCEPT ![c] = v]
          /\ pc' = [pc EXCEPT ![c] = "lock"]
          /\ UNCHANGED <<lock, busy, cancel, smplr, n, got, local, pass, answers>>
Lock(c) == /\ pc[c] = "lock" /\ lock = 0 /\ lock' = c /\ pc' = [pc EXCEPT ![c] = "prepare"]
           /\ UNCHANGED <<req, busy, cancel, smplr, n, got, local, pass, answers, nreq>>
Prepare(c) == /\ pc[c] = "prepare" /\ lock' = 0
              /\ IF busy \/ (req[c] # smplr.view /\ req[c] \in Bad)
                 THEN pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<busy, cancel, smplr, n, got, local>>
                 ELSE /\ busy' = TRUE /\ cancel' = FALSE
                      /\ smplr' = IF smplr.view = req[c] THEN smplr ELSE [view |-> req[c], img |-> {}]
                      /\ n' = IF smplr.view = req[c] THEN n ELSE 1
                      /\ got' = [got EXCEPT ![c] = n'] /\ local' = [local EXCEPT ![c] = req[c]]
                      /\ pc' = [pc EXCEPT ![c] = "sample"]
              /\ UNCHANGED <<req, pass, answers, nreq>>
Sample(c) == /\ pc[c] = "sample" /\ got[c] > 0 /\ pass < MaxPass
             /\ got' = [got EXCEPT ![c] = @ - 1] /\ pass' = pass + 1
             /\ smplr' = [smplr EXCEPT !.img = @ \cup {pass + 1}]
             /\ UNCHANGED <<pc, req, lock, busy, cancel, n, local, answers, nreq>>
Done(c) == /\ pc[c] = "sample" /\ got[c] = 0 /\ lock = 0
           /\ pc' = [pc EXCEPT ![c] = "idle"] /\ busy' = FALSE /\ n' = n + 1
           /\ answers' = Append(answers, [view |-> local[c], img |-> smplr.img])
           /\ UNCHANGED <<req, lock, cancel, smplr, got, local, pass, nreq>>
CancelReq == lock = 0 /\ busy /\ cancel' = TRUE /\ UNCHANGED <<pc, req, lock, busy, smplr, n, got, local, pass, answers, nreq>>
Next == (\E c \in Clients : Ask(c) \/ Lock(c) \/ Prepare(c) \/ Sample(c) \/ Done(c)) \/ CancelReq
Spec == Init /\ [][Next]_vars /\ \A c \in Clients : WF_vars(Lock(c)) /\ WF_vars(Prepare(c)) /\ WF_vars(Sample(c)) /\ WF_vars(Done(c))
OneBake == Cardinality({c \in Clients : pc[c] = "sample"}) <= 1
BusyIffBaking == busy <=> \E c \in Clients : pc[c] = "sample"
B == INSTANCE Bakery WITH running <- IF busy THEN smplr.view ELSE 0,
       kept <- [view |-> 0, img |-> {}, num |-> 1]
Counts == B!Counts
Grows == B!Grows
RightView == \A c \in Clients : pc[c] = "sample" => smplr.view = local[c]
Released == []<>(lock = 0)
=============================================================================
