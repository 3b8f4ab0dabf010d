------------------------------ MODULE LampPal ------------------------------
EXTENDS Lamp
LampOf(kd, c, w, h, b) == [k |-> kd, c |-> c, w |-> w, h |-> h, b |-> b, tr |-> <<>>]
LLamps == {LampOf("rect", <<0, 0, 0>>, 200, 100, <<4, 8, 0>>), LampOf("rect", <<10000, 20000, -5000>>, 60, 140, <<4, 2, 1>>),
           LampOf("disk", <<0, 10000, 5000>>, 160, 160, <<8, 4, 4>>), LampOf("point", <<5000, -10000, 0>>, 0, 0, <<40, 20, 4>>)}
Rt(a, co, si, o) == [k |-> "r", a |-> a, co |-> co, si |-> si, o |-> o]
Mv(v) == [k |-> "t", v |-> v]
Sc(n, d, o) == [k |-> "s", n |-> n, d |-> d, o |-> o]
LOps == {Mv(<<10000, -20000, 5000>>), Rt(1, 0, -5, <<0, 0, 0>>), Rt(2, 3, 4, <<0, 10000, 0>>), Rt(3, 4, -3, <<0, 0, 0>>), Sc(2, 1, <<0, 0, 0>>), Sc(1, 2, <<10000, 0, 0>>)}
LPoints == {<<0, 0, 0>>, <<2500, 0, -4000>>, <<-2000, 0, 9000>>, <<9000, 0, 1000>>, <<0, 3000, 0>>}
LTargets == {<<3000, -30000, 15000>>, <<-20000, 30000, 10000>>, <<0, -20000, 0>>}
=============================================================================
