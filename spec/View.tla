-------------------------------- MODULE View --------------------------------
(* Scene specifications, what defaults fill in and what a view makes of them.
   A specification: size w x h, passes np, recursion depth rec, camera cam
   (<<>> or a sequence with one camera of Camera.tla), n balls in a row on the
   negative z axis, bd = 1 with a backdrop, md media (each halves the light),
   the requested debug display dn (0..2), and the isometric viewport iso (0:
   none, in 1/8) along axis isodir. dbg: the debug display applied.          *)
EXTENDS Camera
DefCam == [New([k |-> "proj", n |-> 1, d |-> 1, ap |-> 0, foc |-> 0, size |-> 0, axis |-> 2]) EXCEPT !.pos = <<0, 8, 0>>]
IsoCam(dir, size) == New([k |-> "iso", n |-> 1, d |-> 1, ap |-> 0, foc |-> 0, size |-> size, axis |-> dir])
DefW == 960  DefH == 540
Default(s) ==
  LET w == IF s.w # 0 THEN s.w ELSE IF s.h = 0 THEN DefW ELSE (s.h * DefW) \div DefH
      h == IF s.h # 0 THEN s.h ELSE IF s.w = 0 THEN DefH ELSE (s.w * DefH) \div DefW
      rec == IF s.dn = 2 THEN 20 ELSE IF s.rec = 0 THEN 1 ELSE s.rec
      cam == IF s.iso # 0 THEN <<IsoCam(s.isodir, s.iso)>> ELSE IF s.cam = <<>> THEN <<DefCam>> ELSE s.cam IN
  [s EXCEPT !.w = w, !.h = h, !.rec = rec, !.cam = cam, !.np = IF @ = 0 THEN 1 ELSE @,
            !.dbg = IF s.dn \in {1, 2} THEN s.dn ELSE @, !.md = IF s.dn \in {1, 2} THEN 0 ELSE @]
(* a view: size, turn <<yaw, pitch>>, position pos, debug display *)
Apply(v, s) ==
  LET cam == IF s.cam = <<>> THEN DefCam ELSE s.cam[1] IN
  Default([s EXCEPT !.w = v.w, !.h = v.h, !.cam = <<Derive(cam, [r |-> <<v.yaw, v.pitch, 0>>, t |-> v.pos])>>,
                    !.dn = v.dn, !.iso = IF v.isom = 1 THEN v.fov ELSE 0, !.isodir = IF v.isom = 1 THEN v.dir ELSE 0])

(* what is seen from before the first ball (j = 0) or from within ball j, in
   1/10000 per channel, without a lamp                                       *)
Ball(j) == <<j * 1250, 2500, 0>>
Sky(d) == <<(10000 + d[1]) \div 2, (10000 + d[2]) \div 2, (10000 + d[3]) \div 2>>
RECURSIVE Pow7(_)
Pow7(k) == IF k = 0 THEN 10000 ELSE (7 * Pow7(k - 1)) \div 10
Half(c, k) == LET d == 2^k IN <<c[1] \div d, c[2] \div d, c[3] \div d>>
Gray(x) == <<x, x, x>>
Look(s, j) ==
  LET hits == IF j = 0 THEN 2 * s.n ELSE 2 * (s.n - j) + 1      \* surfaces ahead
      far == IF s.bd = 1 THEN Half(Sky(<<0, 0, -10000>>), s.md) ELSE Gray(0) IN
  CASE s.dbg = 0 -> IF hits = 0 THEN far ELSE Half(Ball(IF j = 0 THEN 1 ELSE j), s.md)
    [] s.dbg = 1 -> IF hits = 0 THEN Gray(0) ELSE IF j = 0 THEN Gray(10000) ELSE <<10000, 0, 0>>
    [] s.dbg = 2 -> Gray(10000 - Pow7(IF hits > 20 THEN 20 ELSE hits))
(* a pixel of a scene of nothing but a backdrop *)
Pixel(s, a, b) == IF s.dbg # 0 \/ s.bd = 0 THEN Gray(0) ELSE Half(Sky(Dir(s.cam[1], a, b)), s.md)

-----------------------------------------------------------------------------
CONSTANTS Specs, ViewSet, MaxSpecs
VARIABLE specs
VInit == \E s \in Specs : specs = <<s>>
VStep == \/ \E i \in 1..Len(specs), v \in ViewSet : Len(specs) < MaxSpecs /\ specs[i].dbg = 0 /\ specs' = Append(specs, Apply(v, specs[i]))
         \/ \E i \in 1..Len(specs) : specs[i].dbg = 0 /\ specs' = [specs EXCEPT ![i] = Default(@)]
VSpec == VInit /\ cams = <<>> /\ [][VStep /\ cams' = cams]_<<specs, cams>>
Ready(s) == s.cam # <<>> /\ s.w > 0 /\ s.h > 0 /\ s.np > 0 /\ s.rec > 0
Settled == \A i \in 1..Len(specs) : LET d == Default(specs[i]) IN
             /\ Ready(d)
             /\ specs[i].dbg = 0 => Default(d).w = d.w /\ Default(d).h = d.h /\ Default(d).cam = d.cam /\ Default(d).rec = d.rec
             /\ specs[i].w # 0 /\ specs[i].h # 0 => d.w = specs[i].w /\ d.h = specs[i].h
             /\ specs[i].np # 0 => d.np = specs[i].np
             /\ specs[i].rec # 0 /\ specs[i].dn # 2 => d.rec = specs[i].rec
Aspect == \A i \in 1..Len(specs) : LET d == Default(specs[i]) s == specs[i] IN
             (s.w = 0 \/ s.h = 0) => LET x == d.w * 9 - d.h * 16 IN x <= 16 /\ x >= -16
Shape == \A i \in 2..Len(specs) : specs[i].n = specs[1].n /\ specs[i].bd = specs[1].bd
Kept == [][\A i \in 1..Len(specs) : specs'[i] = specs[i] \/ specs'[i] = Default(specs[i])]_specs
VTurns == \* a view that turns back and moves back shows the original picture
  \A i \in 1..Len(specs) : \A v \in ViewSet : v.isom = 0 =>
     LET c == Default([specs[i] EXCEPT !.iso = 0]).cam[1]
         d == Apply([v EXCEPT !.yaw = -v.yaw, !.pitch = 0, !.pos = <<-v.pos[1], -v.pos[2], -v.pos[3]>>], Apply([v EXCEPT !.pitch = 0], [specs[i] EXCEPT !.iso = 0, !.cam = <<c>>])).cam[1] IN
     d.pos = c.pos /\ CloseM(d.m, c.m, 8)
=============================================================================
