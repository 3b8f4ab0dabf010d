------------------------------ MODULE CameraGen ------------------------------
(* every kind of camera with every chain of two derivations, and the two
   orders of every pair of derivations                                       *)
EXTENDS CameraPal, Json, IOUtils, SequencesExt, FiniteSets
Ops == {[i |-> 0, r |-> r, t |-> t] : r \in PTurns, t \in PMoves}
Scn == {[p |-> k, ops |-> <<[o EXCEPT !.i = 1], [q EXCEPT !.i = j]>>] : k \in PKinds, o \in Ops, q \in Ops, j \in 1..2}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Scn))
VARIABLE x
GInit == x = Cardinality(Scn) /\ cams = <<>>
GNext == FALSE /\ x' = x /\ cams' = cams
GSpec == GInit /\ [][GNext]_<<x, cams>>
=============================================================================
