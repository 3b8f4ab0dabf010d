----------------------------- MODULE SamplerGen -----------------------------
(* Scenarios for the real sampler: image sizes around the multiples of
   possible work-unit sizes, and call histories.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Dims == IF IOEnv.TIER = "thorough" THEN {1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 34, 47, 48, 49, 63, 64, 65}
        ELSE {1, 2, 3, 8, 15, 16, 17, 31, 32, 33}
Small == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2>>, <<17, 1>>, <<1, 17>>, <<17, 2>>, <<2, 17>>, <<18, 3>>, <<33, 1>>, <<1, 33>>}
Hist == {<<1>>, <<2>>, <<1, 2>>, <<3, 0, 1>>, <<1, 1, 1>>, <<0, 2>>}
Big == {[w |-> w, h |-> h, calls |-> c, aa |-> 0, nan |-> (w + h) % 2, fine |-> 0] :
          w \in Dims, h \in Dims, c \in {<<2>>, <<1, 2>>}}
       \cup {[w |-> w, h |-> h, calls |-> c, aa |-> 1, nan |-> 1, fine |-> 0] :
          w \in {1, 5, 16, 17}, h \in {17, 20}, c \in {<<1, 3>>, <<5>>, <<2, 0, 1>>}}
Fine == {[w |-> s[1], h |-> s[2], calls |-> c, aa |-> 0, nan |-> 1, fine |-> 1] : s \in Small, c \in Hist}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Big \cup Fine))
VARIABLE x
Init == x = Cardinality(Big) + Cardinality(Fine)
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
