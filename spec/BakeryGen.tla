------------------------------ MODULE BakeryGen ------------------------------
(* all histories of Depth client operations, starting with a bake *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Depth == IF IOEnv.TIER = "thorough" THEN 5 ELSE 4
Idle == {"bake1", "bake2", "hold1", "hold2", "cancel", "preview1", "bad"}
Busy == {"bake1", "bake2", "release", "cancel", "preview1", "preview2", "bad", "drop"}
RECURSIVE H(_, _)
H(d, busy) == IF d = 0 THEN {<<>>} ELSE
   UNION {{<<o>> \o t : t \in H(d - 1, IF o \in {"hold1", "hold2"} THEN TRUE ELSE IF o \in {"release", "drop"} THEN FALSE ELSE busy)} : o \in IF busy THEN Busy ELSE Idle}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[ops |-> h] : h \in {g \in H(Depth, FALSE) : g[1] \in {"bake1", "hold1"}}}))
VARIABLE x
Spec == x = 0 /\ [][FALSE /\ x' = x]_x
=============================================================================
