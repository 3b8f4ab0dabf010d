------------------------------- MODULE FogGen -------------------------------
(* every ray of the palette with every fog, alone and in pairs *)
EXTENDS FogPal, Json, IOUtils, SequencesExt
Rays == {[y |-> y, dy |-> s[1], L |-> s[2], end |-> e] : y \in PYs, s \in PSlopes, e \in {8, 64, INF}}
Fogs == {[kind |-> kd, k |-> kk, h |-> hh, amb |-> <<10000, 5000, 0>>, nl |-> 1] : kd \in {"exp", "lit"}, kk \in {0, 1, 8}, hh \in {-8, 5, INF}}
Clear(ry, ms) == \A i \in 1..Len(ms) : ry.dy # 0 \/ ry.y # ms[i].h
Lights1 == <<[i |-> <<10000, 20000, 5000>>, vis |-> TRUE]>>
Scn == {[r |-> ry, ms |-> ms, lights |-> Lights1, base |-> <<20000, 10000, 40000>>] :
          ry \in Rays, ms \in {<<f>> : f \in Fogs} \cup {<<a, b>> : a \in {f \in Fogs : f.k = 1}, b \in {f \in Fogs : f.k # 1 /\ f.h # -8}}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({s \in Scn : Clear(s.r, s.ms)}))
GInit == r = 0 /\ h = 0 /\ k = 0
GSpec == GInit /\ [][FALSE /\ UNCHANGED <<r, h, k>>]_<<r, h, k>>
=============================================================================
