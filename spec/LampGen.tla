------------------------------ MODULE LampGen ------------------------------
(* every lamp of the palette with every sequence of up to two motions, and suns *)
EXTENDS LampPal, Json, IOUtils, SequencesExt
Progs == {<<>>} \cup {<<x>> : x \in LOps} \cup {<<x, y>> : x \in LOps, y \in LOps}
Angles == {<<5, 0>>, <<0, 5>>, <<3, 4>>, <<4, -3>>, <<-5, 0>>}
Scn == {[sun |-> 0, lamp |-> [l EXCEPT !.tr = p]] : l \in LLamps, p \in Progs}
       \cup {[sun |-> 1, a |-> a, e |-> <<4, 2, 1>>, yaw |-> y, pitch |-> p] : a \in {10, 20, 50}, y \in Angles, p \in Angles \ {<<-5, 0>>}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Scn))
VARIABLE cnt
GInit == cnt = Cardinality(Scn) /\ lamp = 0 /\ q = 0 /\ t = 0
GSpec == GInit /\ [][FALSE /\ UNCHANGED <<cnt, lamp, q, t>>]_<<cnt, lamp, q, t>>
=============================================================================
