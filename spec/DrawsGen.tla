------------------------------ MODULE DrawsGen ------------------------------
(* Every way to split n passes into requests.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
RECURSIVE Comps(_)
Comps(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o c : c \in Comps(n - k)} : k \in 1..n}
T == IOEnv.TIER = "thorough"
Sizes == IF T THEN {<<1, 1>>, <<2, 3>>, <<16, 17>>, <<18, 33>>, <<5, 40>>, <<33, 18>>, <<50, 7>>}
         ELSE {<<1, 1>>, <<3, 2>>, <<16, 17>>, <<33, 3>>}
Totals == IF T THEN {1, 3, 6} ELSE {1, 4}
Scn == {[w |-> s[1], h |-> s[2], batches |-> SetToSeq(UNION {Comps(n) : n \in Totals}), kind |-> k] :
           s \in Sizes, k \in {"probe", "scene0", "scene1", "scene2", "scene3"}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Scn))
VARIABLE x
Init == x = Cardinality(Scn)
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
