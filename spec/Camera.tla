------------------------------- MODULE Camera -------------------------------
(* Cameras: what a camera is (a projection, a rotation and a position), how
   cameras are derived from each other, and which ray belongs to an image
   position. Rotations are matrices (rows) in units of 1/10000, angles are
   multiples of 15 degrees, positions are in units of 1/8.                   *)
EXTENDS Integers, Sequences
One == 10000
S15 == <<0, 2588, 5000, 7071, 8660, 9659, 10000>>
RECURSIVE Sin(_)
Sin(a) == IF a < 0 THEN -Sin(-a)
          ELSE IF a > 12 THEN -Sin(a - 12)          \* a in units of 15 degrees
          ELSE IF a > 6 THEN S15[13 - a] ELSE S15[a + 1]
Cos(a) == Sin(a + 6)
V3(x, y, z) == <<x, y, z>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Rnd(x, d) == IF x >= 0 THEN (x + (d \div 2)) \div d ELSE -((-x + (d \div 2)) \div d)
Row(a, m) == <<Rnd(a[1] * m[1][1] + a[2] * m[2][1] + a[3] * m[3][1], One),
               Rnd(a[1] * m[1][2] + a[2] * m[2][2] + a[3] * m[3][2], One),
               Rnd(a[1] * m[1][3] + a[2] * m[2][3] + a[3] * m[3][3], One)>>
MMul(a, b) == <<Row(a[1], b), Row(a[2], b), Row(a[3], b)>>      \* b first, then a
MVec(m, v) == <<Rnd(Dot(m[1], v), One), Rnd(Dot(m[2], v), One), Rnd(Dot(m[3], v), One)>>
Unit == <<<<One, 0, 0>>, <<0, One, 0>>, <<0, 0, One>>>>
Yaw(a)   == <<<<Cos(a), 0, Sin(a)>>, <<0, One, 0>>, <<-Sin(a), 0, Cos(a)>>>>
Pitch(a) == <<<<One, 0, 0>>, <<0, Cos(a), -Sin(a)>>, <<0, Sin(a), Cos(a)>>>>
Roll(a)  == <<<<Cos(a), -Sin(a), 0>>, <<Sin(a), Cos(a), 0>>, <<0, 0, One>>>>
YPR(r) == MMul(Yaw(r[1]), MMul(Pitch(r[2]), Roll(r[3])))

(* a camera: projection p, rotation m, position pos. The projections:
   proj  : field of view with tan(fov/2) = p.n/p.d, lens radius p.ap and focus
           distance p.foc (in 1/1000; without a lens ap = 0)
   iso   : viewport p.size (1/8)
   env   : whole sphere                                                      *)
New(p) == [p |-> p, m |-> CASE p.k = "iso" /\ p.axis = 0 -> Yaw(6)
                            [] p.k = "iso" /\ p.axis = 1 -> Pitch(-6)
                            [] OTHER -> Unit, pos |-> <<0, 0, 0>>]
(* deriving: turn by r (yaw, pitch, roll), displace by t *)
Derive(c, o) == [c EXCEPT !.m = MMul(YPR(o.r), c.m), !.pos = Plus(c.pos, o.t)]

(* the ray of image position (a/48, b/48) *)
ISqrt(x) ==   \* integer square root, by bisection
  LET RECURSIVE F(_, _)
      F(lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN F(m, hi) ELSE F(lo, m)
  IN F(0, 46341)
Norm(v) == LET n == ISqrt(100 * Dot(v, v)) IN <<Rnd(v[1] * One * 10, n), Rnd(v[2] * One * 10, n), Rnd(v[3] * One * 10, n)>>
LocalDir(p, a, b) ==
  CASE p.k = "proj" -> Norm(<<2 * p.n * (a - 24), 2 * p.n * (b - 24), -48 * p.d>>)
    [] p.k = "iso"  -> <<0, 0, -One>>
    [] p.k = "env"  -> \* a in half units of 15 degrees: even a only; b multiple of 4
         LET f == -(a \div 2)  t == (b \div 4) - 6 IN
         <<Rnd(Sin(f) * Cos(t), One), Sin(t), Rnd(Cos(f) * Cos(t), One)>>
Dir(c, a, b) == MVec(c.m, LocalDir(c.p, a, b))
(* a point on the ray, in 1/1000: the camera position, the point of the
   viewport, or the point of the plane of focus                              *)
Mil(v) == <<v[1] * 125, v[2] * 125, v[3] * 125>>
Through(c, a, b) ==
  CASE c.p.k = "proj" /\ c.p.ap > 0 ->
         Plus(Mil(c.pos), MVec(c.m, <<Rnd(2 * c.p.n * (a - 24) * c.p.foc, 48 * c.p.d), Rnd(2 * c.p.n * (b - 24) * c.p.foc, 48 * c.p.d), -c.p.foc>>))
    [] c.p.k = "iso" -> Plus(Mil(c.pos), MVec(c.m, <<Rnd((a - 24) * c.p.size * 125, 48), Rnd((b - 24) * c.p.size * 125, 48), 0>>))
    [] OTHER -> Mil(c.pos)

-----------------------------------------------------------------------------
(* design: all families of cameras derived from one another *)
CONSTANTS Kinds, Turns, Moves, MaxCams
VARIABLE cams
Init == \E k \in Kinds : cams = <<New(k)>>
Step == \E i \in 1..Len(cams), r \in Turns, t \in Moves :
          Len(cams) < MaxCams /\ cams' = Append(cams, Derive(cams[i], [r |-> r, t |-> t]))
Spec == Init /\ [][Step]_cams
Close(a, b, tol) == \A k \in 1..3 : a[k] - b[k] <= tol /\ b[k] - a[k] <= tol
CloseM(a, b, tol) == \A k \in 1..3 : Close(a[k], b[k], tol)
T(m) == <<<<m[1][1], m[2][1], m[3][1]>>, <<m[1][2], m[2][2], m[3][2]>>, <<m[1][3], m[2][3], m[3][3]>>>>
Rotations == \A i \in 1..Len(cams) : LET m == cams[i].m IN CloseM(MMul(m, T(m)), Unit, 12 + 6 * Len(cams))
No == <<0, 0, 0>>
Independent == \* turning and moving commute, moving back and turning back undo
  \A i \in 1..Len(cams), r \in Turns, t \in Moves :
     LET c == cams[i]
         a == Derive(Derive(c, [r |-> r, t |-> No]), [r |-> No, t |-> t])
         b == Derive(Derive(c, [r |-> No, t |-> t]), [r |-> r, t |-> No])
         e == Derive(c, [r |-> r, t |-> t]) IN
     /\ a.pos = b.pos /\ a.pos = e.pos /\ CloseM(a.m, b.m, 6) /\ CloseM(a.m, e.m, 6)
     /\ Minus(a.pos, t) = c.pos
UnitRays == \A i \in 1..Len(cams) : \A a \in {0, 12, 24, 36, 48}, b \in {0, 12, 24, 48} :
     LET d == Dir(cams[i], a, b)  n == Dot(d, d) IN n >= 99000000 /\ n <= 101000000
Straight == \* an unturned camera looks along -z, x to the right, y up
  \A k \in Kinds : (k.k # "iso" \/ k.axis = 2) =>
     LET c == New(k) IN /\ Dir(c, 24, 24) = <<0, 0, -One>>
                        /\ k.k # "iso" => Dir(c, 36, 24)[1] > 0 /\ Dir(c, 24, 36)[2] > 0
Older == [][\A i \in 1..Len(cams) : cams'[i] = cams[i]]_cams
=============================================================================
