------------------------------ MODULE BloomGen ------------------------------
(* all images of up to 2x2 pixels over the palette with all its kernels *)
EXTENDS BloomPal, TLC, Json, IOUtils, SequencesExt
Imgs(w, h) == [1..h -> [1..w -> PValues]]
Scn == {[img |-> i, kern |-> k, thr |-> t, gain |-> g] : i \in UNION {Imgs(w, h) : w \in 1..2, h \in 1..2}, k \in PKernels, t \in {0, 2}, g \in {1, 3}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Scn))
VARIABLE cnt
GInit == cnt = Cardinality(Scn) /\ img = 0 /\ kern = 0 /\ thr = 0 /\ todo = 0 /\ out = 0
GSpec == GInit /\ [][FALSE /\ UNCHANGED <<cnt, img, kern, thr, todo, out>>]_<<cnt, img, kern, thr, todo, out>>
=============================================================================
