------------------------------- MODULE ViewPal -------------------------------
EXTENDS View, TLC
P1 == [k |-> "proj", n |-> 1, d |-> 2, ap |-> 0, foc |-> 0, size |-> 0, axis |-> 2]
C1 == Derive(New(P1), [r |-> <<3, -1, 2>>, t |-> <<8, -4, 3>>])
E1 == New([P1 EXCEPT !.k = "env", !.n = 1, !.d = 1])
Base == [w |-> 0, h |-> 0, np |-> 0, rec |-> 0, cam |-> <<>>, n |-> 2, bd |-> 1, md |-> 1, dn |-> 0, iso |-> 0, isodir |-> 0, dbg |-> 0]
PSpecs == {[[Base EXCEPT !.w = x[1], !.h = x[2]] EXCEPT !.cam = c, !.rec = x[3], !.np = x[4], !.n = x[5], !.dn = dn, !.iso = io, !.isodir = 1] :
            x \in {<<0, 0, 0, 0, 2>>, <<16, 0, 3, 5, 0>>, <<0, 9, 0, 1, 6>>, <<7, 5, 2, 0, 1>>}, c \in {<<>>, <<C1>>, <<E1>>}, dn \in 0..2, io \in {0, 20}}
V0 == [w |-> 8, h |-> 6, yaw |-> 0, pitch |-> 0, pos |-> <<0, 0, 0>>, dn |-> 0, isom |-> 0, fov |-> 0, dir |-> 0]
PViews == {[[V0 EXCEPT !.w = x[1], !.h = x[2], !.yaw = x[3], !.pitch = x[4], !.pos = x[5]] EXCEPT !.dn = dn, !.isom = io[1], !.fov = io[2], !.dir = io[3]] :
            x \in {<<8, 6, 0, 0, <<0, 0, 0>>>>, <<0, 3, 5, -2, <<1, 16, -9>>>>}, dn \in 0..2, io \in {<<0, 9, 1>>, <<1, 30, 0>>, <<1, 12, 1>>, <<1, 0, 2>>}}
=============================================================================
