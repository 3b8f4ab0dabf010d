------------------------------- MODULE Draws -------------------------------
(* Reproducibility (C02). Workers with private generators draw the random
   choices of the samples; requests arrive in any batching. Seed(p, k) stands
   for what the k-th sample of pixel p draws.                                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NPix, Workers, MaxTotal, Ks
VARIABLES phase, left, n, gen, at, log
vars == <<phase, left, n, gen, at, log>>
Pix == 1..NPix
Seed(p, k) == p * 100 + k
Init == /\ phase = "idle" /\ left = [p \in Pix |-> 0] /\ n = [p \in Pix |-> 0]
        /\ gen = [w \in Workers |-> 0] /\ at = [w \in Workers |-> 0]
        /\ log = [p \in Pix |-> <<>>]
Total == n[1] + left[1]
Call(k) == /\ phase = "idle" /\ n[1] + k <= MaxTotal
           /\ phase' = "busy" /\ left' = [p \in Pix |-> k] /\ UNCHANGED <<n, gen, at, log>>
(* a worker takes a pixel and seeds its generator from pixel and count *)
Take(w, p) == /\ phase = "busy" /\ at[w] = 0 /\ left[p] > 0
              /\ \A v \in Workers : at[v] # p
              /\ at' = [at EXCEPT ![w] = p]
              /\ gen' = [gen EXCEPT ![w] = Seed(p, n[p])]
              /\ n' = [n EXCEPT ![p] = @ + 1]
              /\ UNCHANGED <<phase, left, log>>
Draw(w) == /\ at[w] # 0
           /\ log' = [log EXCEPT ![at[w]] = Append(@, gen[w])]
           /\ left' = [left EXCEPT ![at[w]] = @ - 1]
           /\ at' = [at EXCEPT ![w] = 0]
           /\ UNCHANGED <<phase, n, gen>>
Return == /\ phase = "busy" /\ \A p \in Pix : left[p] = 0
          /\ phase' = "idle" /\ UNCHANGED <<left, n, gen, at, log>>
Next == (\E k \in Ks : Call(k)) \/ (\E w \in Workers : Draw(w) \/ \E p \in Pix : Take(w, p)) \/ Return
Spec == Init /\ [][Next]_vars

(* what a sample draws depends on pixel and sample number only *)
Reproducible == \A p \in Pix : \A k \in 1..Len(log[p]) : log[p][k] = Seed(p, k - 1)
Complete == phase = "idle" => \A p \in Pix : Len(log[p]) = n[p] /\ n[p] = n[1]
=============================================================================
