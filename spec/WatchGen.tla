------------------------------ MODULE WatchGen ------------------------------
(* histories of edits: an edit (after everything settled) with its kind, the
   kind of a further edit while it is being built ("" none), and whether the
   file's time goes backwards                                                 *)
EXTENDS Watch, Json, IOUtils, SequencesExt
Steps == {[kind |-> k, mid |-> m, back |-> b] : k \in Kinds, m \in Kinds \cup {""}, b \in {0, 1}}
First == {[kind |-> k, mid |-> m, back |-> 0] : k \in Kinds, m \in Kinds \cup {""}}
Scn == {[steps |-> <<x, y>>] : x \in First, y \in Steps}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Scn))
VARIABLE cnt
GInit == cnt = Cardinality(Scn) /\ kind = 0 /\ seen = 0 /\ pc = 0 /\ src = 0 /\ bin = 0 /\ live = 0 /\ o = 0 /\ fine = 0
GSpec == GInit /\ [][FALSE /\ UNCHANGED <<cnt, vars>>]_<<cnt, vars>>
=============================================================================
