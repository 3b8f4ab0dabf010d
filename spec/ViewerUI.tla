------------------------------ MODULE ViewerUI ------------------------------
(* What the user's input does to the view. Positions in 10^-6, the yaw in steps
   of 1/200 radian, the pitch as well: po steps from level (pb = 0), straight up
   (1) or straight down (-1). fe: the isometric view is 8 * sqrt(2)^fe wide.    *)
EXTENDS Integers, Sequences, Tables
U0 == [x |-> 0, y |-> 0, z |-> 0, yaw |-> 0, pb |-> 0, po |-> 0, nrm |-> 0, iso |-> 0, dir |-> 0, fe |-> 0,
       w |-> 32, h |-> 32, mx |-> 0, my |-> 0, down |-> "", paused |-> FALSE, drag |-> FALSE]
Sn(n) == IF n < 0 THEN -SinTab[1 - n] ELSE SinTab[n + 1]
Cn(n) == CosTab[(IF n < 0 THEN -n ELSE n) + 1]
SinP(u) == CASE u.pb = 0 -> Sn(u.po) [] u.pb = 1 -> Cn(u.po) [] OTHER -> -Cn(u.po)
CosP(u) == CASE u.pb = 0 -> Cn(u.po) [] u.pb = 1 -> -Sn(u.po) [] OTHER -> Sn(u.po)
Div(a, b) == IF a < 0 THEN -((-a + b \div 2) \div b) ELSE (a + b \div 2) \div b
(* a step of 0.05 to the right, up or ahead of the camera (k: 1 or -1) *)
Mul(a, b) == Div(a * b, 18000)
Shift(u, d) == [u EXCEPT !.x = @ + d[1], !.y = @ + d[2], !.z = @ + d[3]]
Right(u, k) == Shift(u, <<k * Div(5 * Cn(u.yaw), 3), 0, -k * Div(5 * Sn(u.yaw), 3)>>)
Rise(u, k) == Shift(u, <<k * Mul(Sn(u.yaw), SinP(u)), k * Div(5 * CosP(u), 3), k * Mul(Cn(u.yaw), SinP(u))>>)
Ahead(u, k) == Shift(u, <<-k * Mul(Sn(u.yaw), CosP(u)), k * Div(5 * SinP(u), 3), -k * Mul(Cn(u.yaw), CosP(u))>>)
(* turning by dx, dy pixels; 314 steps are just below a right angle *)
Turn(u, dx, dy) ==
  LET n == u.po + dy
      up == CASE u.pb = 0 -> n > 314 [] u.pb = 1 -> n > 0 [] OTHER -> n > 628
      dn == CASE u.pb = 0 -> n < -314 [] u.pb = 1 -> n < -628 [] OTHER -> n < 0 IN
  [u EXCEPT !.yaw = @ + dx, !.pb = IF up THEN 1 ELSE IF dn THEN -1 ELSE @, !.po = IF up \/ dn THEN 0 ELSE n]
Iso(u, d) == [u EXCEPT !.iso = IF u.dir = d THEN 1 - @ ELSE 1, !.dir = d]
Key(u, e) ==
  IF e.dir # "press" THEN u
  ELSE CASE e.code \in {"Left", "S"} -> Right(u, -1)
         [] e.code \in {"Right", "F"} -> Right(u, 1)
         [] e.code \in {"Up", "E"} -> IF e.shift = 1 THEN Rise(u, 1) ELSE Ahead(u, 1)
         [] e.code \in {"Down", "D"} -> IF e.shift = 1 THEN Rise(u, -1) ELSE Ahead(u, -1)
         [] e.code = "Space" -> Rise(u, 1)
         [] e.code = "X" -> Iso(u, 0)
         [] e.code = "Y" -> Iso(u, 1)
         [] e.code = "Z" -> Iso(u, 2)
         [] e.code = "N" -> [u EXCEPT !.nrm = IF @ = 2 THEN 0 ELSE @ + 1]
         [] e.code = "P" -> [u EXCEPT !.paused = ~@]
         [] OTHER -> u
Mouse(u, e) ==
  LET a == CASE e.dir = "press" -> [u EXCEPT !.down = e.button, !.drag = (e.button = "left")]
             [] e.dir = "release" -> [u EXCEPT !.down = "", !.drag = IF e.button = "left" THEN FALSE ELSE @]
             [] OTHER -> u
      b == IF a.down = "left" THEN Turn(a, e.x - u.mx, e.y - u.my) ELSE a
      c == [b EXCEPT !.mx = e.x, !.my = e.y] IN
  IF c.iso = 1
  THEN CASE e.button = "wheelup" -> [c EXCEPT !.fe = @ - 1] [] e.button = "wheeldown" -> [c EXCEPT !.fe = @ + 1] [] OTHER -> c
  ELSE CASE e.button = "wheelup" -> IF e.shift = 1 THEN Rise(c, 1) ELSE Ahead(c, 1)
         [] e.button = "wheeldown" -> IF e.shift = 1 THEN Rise(c, -1) ELSE Ahead(c, -1)
         [] e.button = "wheelleft" -> Right(c, -1)
         [] e.button = "wheelright" -> Right(c, 1)
         [] OTHER -> c
UI(u, e) ==
  CASE e.t = "key" -> Key(u, e)
    [] e.t = "mouse" -> Mouse(u, e)
    [] e.t = "size" -> [u EXCEPT !.w = e.w, !.h = e.h]
    [] OTHER -> u
Close(a, b, t) == a - b <= t /\ b - a <= t
Tol == 60
Same(u, v) == /\ Close(u.x, v.x, Tol) /\ Close(u.y, v.y, Tol) /\ Close(u.z, v.z, Tol)
              /\ u.yaw = v.yaw /\ u.pb = v.pb /\ u.po = v.po /\ u.nrm = v.nrm /\ u.iso = v.iso
              /\ (u.iso = 1 => u.dir = v.dir /\ u.fe = v.fe) /\ u.w = v.w /\ u.h = v.h
(* whether an event is about the view (so that the viewer may start over) *)
About(u, e) == ~Same(u, UI(u, e)) \/ e.t = "size" \/ UI(u, e).down = "left" \/ (e.t = "key" /\ e.code \in {"X", "Y", "Z"})
FovTab == [i \in -8..8 |-> <<500, 707, 1000, 1414, 2000, 2828, 4000, 5657, 8000, 11314, 16000, 22627, 32000, 45255, 64000, 90510, 128000>>[i + 9]]
PitchOf(u) == u.pb * 1570796 + 5000 * u.po
(* whether a request r (in the same units) is for view u *)
For(u, r) == /\ Close(u.x, r.x, Tol) /\ Close(u.y, r.y, Tol) /\ Close(u.z, r.z, Tol)
             /\ Close(5000 * u.yaw, r.yaw, 20) /\ Close(PitchOf(u), r.pitch, 20)
             /\ u.nrm = r.nrm /\ u.iso = r.iso
             /\ (u.iso = 1 => u.dir = r.dir /\ u.fe \in -8..8 /\ Close(FovTab[u.fe], r.fov, 2))
Sized(u, r, d) == r.w = u.w \div d /\ r.h = u.h \div d
Level(u, r) == CASE r.aa = 0 /\ Sized(u, r, 8) -> 0
                 [] r.aa = 0 /\ Sized(u, r, 4) -> 1
                 [] r.aa = 0 /\ Sized(u, r, 2) -> 2
                 [] r.aa = 1 /\ Sized(u, r, 1) -> 3
                 [] OTHER -> -1
=============================================================================
