------------------------------ MODULE CameraPal ------------------------------
EXTENDS Camera, TLC
Proj(n, d, ap, foc) == [k |-> "proj", n |-> n, d |-> d, ap |-> ap, foc |-> foc, size |-> 0, axis |-> 2]
Iso(axis, size) == [k |-> "iso", n |-> 1, d |-> 1, ap |-> 0, foc |-> 0, size |-> size, axis |-> axis]
Env == [k |-> "env", n |-> 1, d |-> 1, ap |-> 0, foc |-> 0, size |-> 0, axis |-> 2]
PKinds == {Proj(1, 1, 0, 0), Proj(1, 4, 0, 0), Proj(3, 1, 0, 0), Proj(1, 2, 250, 4000), Iso(0, 24), Iso(1, 24), Iso(2, 8), Env}
PTurns == {<<0, 0, 0>>, <<6, 0, 0>>, <<0, 2, 0>>, <<0, 0, 3>>, <<-5, 4, 7>>}
PMoves == {<<0, 0, 0>>, <<8, -3, 20>>}
=============================================================================
