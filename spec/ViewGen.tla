------------------------------- MODULE ViewGen -------------------------------
(* every specification of the palette: views before and after filling in the
   defaults, and a view of the result of another one                         *)
EXTENDS ViewPal, Json, IOUtils, SequencesExt, FiniteSets
Op(k, i, v) == [k |-> k, i |-> i, v |-> v]
Progs == {<<Op("apply", 1, v), Op("init", 1, v), Op("apply", 1, v)>> : v \in PViews}
    \cup {<<Op("apply", 1, v), Op("apply", 2, u), Op("init", 1, v)>> : v \in {v \in PViews : v.dn = 0}, u \in {V0}}
Scn == {x \in {[s |-> s, ops |-> p] : s \in PSpecs, p \in Progs} : x.s.dn = 0 \/ x.ops[3].k # "apply"}
  \cup {[s |-> s, ops |-> <<Op("init", 1, V0)>>] : s \in PSpecs}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Scn))
VARIABLE cnt
GInit == cnt = Cardinality(Scn) /\ cams = <<>> /\ specs = <<>>
GNext == FALSE /\ cnt' = cnt /\ UNCHANGED <<cams, specs>>
GSpec == GInit /\ [][GNext]_<<cnt, cams, specs>>
=============================================================================
