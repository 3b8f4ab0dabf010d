------------------------------- MODULE Halton -------------------------------
(* Low-discrepancy sequences and their mappings (C21).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Pow(_, _), Rev(_, _, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
(* the first k digits of i in base b, mirrored: the radical inverse of i is
   Rev(b, i, k) / b^k for any k with b^k > i                                  *)
Rev(b, i, k) == IF k = 0 THEN 0 ELSE (i % b) * Pow(b, k - 1) + Rev(b, i \div b, k - 1)
(* element i (from 0) of the sequence, times b^k *)
Elem(b, i, k) == Rev(b, i + 1, k)

(* b^k consecutive aligned elements: one in each interval of width b^-k; after
   a cyclic shift by s/b^j (j >= k): still one in each shifted interval        *)
CONSTANTS Bases, MaxK, Blocks, Lim
VARIABLES b, k, m
Init == b \in Bases /\ k \in 1..MaxK /\ m \in 1..Blocks /\ Pow(b, k) * m < Lim
Next == UNCHANGED <<b, k, m>>
Spec == Init /\ [][Next]_<<b, k, m>>
D == CHOOSE d \in 1..20 : Pow(b, d) > Pow(b, k) * (m + 1) /\ \A c \in 1..(d - 1) : Pow(b, c) <= Pow(b, k) * (m + 1)
Cell(x, K) == x \div Pow(b, D - K)
(* raw indices i+1 in [m b^k, (m+1) b^k) *)
Aligned == {Elem(b, i, D) : i \in (m * Pow(b, k) - 1)..((m + 1) * Pow(b, k) - 2)}
Stratified == {Cell(x, k) : x \in Aligned} = 0..(Pow(b, k) - 1)
Distinct == Cardinality(Aligned) = Pow(b, k)
(* a cyclic shift by s/b^D leaves at least none and at most two per interval:
   the shifted intervals each hold exactly one *)
Shifted(s) == {(x + s) % Pow(b, D) : x \in Aligned}
ShiftEven == \A s \in {0, 1, Pow(b, D) \div 2, Pow(b, D) - 1} :
   {((x - s) % Pow(b, D)) \div Pow(b, D - k) : x \in Shifted(s)} = 0..(Pow(b, k) - 1)
=============================================================================
