------------------------------ MODULE LightGen ------------------------------
(* All stacks of two layers over all materials, with a floor or a ceiling.    *)
EXTENDS LightPal, Json, IOUtils, SequencesExt
Scn == {[rec |-> r, layers |-> ls, lights |-> li] : r \in {1, 2, 4},
          ls \in {<<L(6, a), L(-6, b)>> : a \in Mats, b \in Mats} \cup {<<L(1, a), L(2, b), L(12, F(1, 1, 2)), L(-12, F(4, 2, 2))>> : a \in Mats, b \in Mats},
          li \in Lights}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Scn))
VARIABLE x
Init == x = Cardinality(Scn)
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
