-------------------------------- MODULE Fog --------------------------------
(* Fog: which part of a primary ray lies below the ceiling, what fraction of
   the light passes it, and how a list of media changes the light of the first
   surface. Heights, distances in 1/8; a ray is [y, dy, L, end]: height of its
   start, slope dy/L (dy, L integers), distance of the first surface (INF if
   none). Densities are multiples of ln2/4, so that light halves every 4/k.   *)
EXTENDS Integers, Sequences
INF == 99999999
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
(* the part [from, to] of the ray below height h, in 1/8000 *)
Cross(r, h) == IF r.dy > 0 THEN (1000 * (h - r.y) * r.L) \div r.dy ELSE -((1000 * (h - r.y) * r.L) \div (-r.dy))
EndOf(r) == IF r.end = INF THEN INF ELSE 1000 * r.end
Segment(r, h) ==
  LET e == EndOf(r) IN
  IF h = INF THEN <<0, e>>
  ELSE IF r.dy = 0 THEN IF r.y < h THEN <<0, e>> ELSE <<0, 0>>
  ELSE LET c == Cross(r, h)
           s == IF r.dy < 0 THEN <<Mx(0, c), e>> ELSE <<0, Mn(e, c)>>
       IN IF s[2] > s[1] THEN s ELSE <<0, 0>>
Length(r, h) == LET s == Segment(r, h) IN IF s[2] = INF THEN INF ELSE s[2] - s[1]

(* 2^-(i/16), in 1/10000 *)
P16 == <<10000, 9576, 9170, 8781, 8409, 8052, 7711, 7384, 7071, 6771, 6484, 6209, 5946, 5694, 5453, 5221, 5000>>
RECURSIVE Shift(_, _)
Shift(x, n) == IF n = 0 \/ x = 0 THEN x ELSE Shift((x + 1) \div 2, n - 1)
(* transmitted fraction (1/10000) over length len (1/8000) at density k*ln2/4:
   k*len/32000 halvings; x = sixteenths of halvings, in 1/1000 *)
Trans(k, len) ==
  IF k = 0 THEN 10000
  ELSE IF len = INF \/ len > 900000 THEN 0
  ELSE LET x == (k * len) \div 2
           n == x \div 16000
           i == (x % 16000) \div 1000
           f == x % 1000
       IN IF n > 13 THEN 0 ELSE Shift((P16[i + 1] * (1000 - f) + P16[i + 2] * f) \div 1000, n)
Mix(t, c, a) == (t * c + (10000 - t) * a) \div 10000
(* one medium: [kind, k, h, amb, nl]; lights: sequence of [i, vis] *)
RECURSIVE Lit(_, _, _)
Lit(ls, n, ch) == IF n = 0 \/ ls = <<>> THEN 0 ELSE (IF ls[1].vis THEN ls[1].i[ch] ELSE 0) + Lit(Tail(ls), n - 1, ch)
Apply(m, r, lights, c) ==
  LET t == Trans(m.k, Length(r, m.h)) IN
  IF m.kind = "exp" THEN <<Mix(t, c[1], m.amb[1]), Mix(t, c[2], m.amb[2]), Mix(t, c[3], m.amb[3])>>
  ELSE <<Mix(t, c[1], Lit(lights, m.nl, 1)), Mix(t, c[2], Lit(lights, m.nl, 2)), Mix(t, c[3], Lit(lights, m.nl, 3))>>
RECURSIVE Through(_, _, _, _)
Through(ms, r, lights, c) == IF ms = <<>> THEN c ELSE Through(Tail(ms), r, lights, Apply(ms[1], r, lights, c))
=============================================================================
