------------------------------- MODULE TexGen -------------------------------
EXTENDS TexPal, Json, IOUtils, SequencesExt, FiniteSets
Scn == {[t |-> t] : t \in LTexs}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Scn))
VARIABLE cnt
GInit == cnt = Cardinality(Scn) /\ tx = 0 /\ p = 0
GSpec == GInit /\ [][FALSE /\ UNCHANGED <<cnt, tx, p>>]_<<cnt, tx, p>>
=============================================================================
