------------------------------ MODULE ViewerGen ------------------------------
(* histories: what the user and the server do, step by step. Before the next
   step the viewer settles. Actions: "ev" input events; "ans" the outstanding
   bake is answered, together with input events; "pfail" input events, and the
   next preview fails; "hold" input events, and more while the preview is awaited *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
K(c) == [t |-> "key", code |-> c, dir |-> "press", shift |-> 0]
M(x, y, b, d) == [t |-> "mouse", x |-> x, y |-> y, button |-> b, dir |-> d, shift |-> 0]
Act(a, r, e1, e2) == [a |-> a, res |-> r, evs |-> e1, more |-> e2]
Ev(e) == Act("ev", "", e, <<>>)
Alphabet ==
  {Ev(<<K("Up")>>), Ev(<<K("P")>>), Ev(<<M(0, 0, "left", "press")>>), Ev(<<M(60, 340, "", "")>>), Ev(<<M(0, 0, "left", "release")>>),
   Ev(<<[t |-> "size", w |-> 77, h |-> 45]>>), Ev(<<K("Left"), K("Right")>>), Ev(<<K("X")>>), Ev(<<M(0, 0, "wheelup", "step")>>),
   Ev(<<M(20, 20, "left", "press"), M(40, -40, "", ""), M(40, -40, "left", "release")>>),
   Act("ans", "ok", <<>>, <<>>), Act("ans", "err", <<>>, <<>>), Act("ans", "empty", <<>>, <<>>),
   Act("ans", "ok", <<K("N")>>, <<>>), Act("ans", "ok", <<K("P")>>, <<>>), Act("ans", "err", <<K("Space")>>, <<>>),
   Act("ans", "ok", <<M(0, 0, "left", "press")>>, <<>>),
   Act("pfail", "", <<K("Down")>>, <<>>), Act("hold", "", <<K("Up")>>, <<K("Down")>>), Act("hold", "ok", <<K("S")>>, <<K("P")>>)}
Scn == {[steps |-> <<x, y, z>>] : x \in Alphabet, y \in Alphabet, z \in Alphabet}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Scn))
VARIABLE cnt
GSpec == cnt = Cardinality(Scn) /\ [][FALSE /\ UNCHANGED cnt]_cnt
Spec == GSpec
=============================================================================
