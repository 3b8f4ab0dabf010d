-------------------------------- MODULE Lamp --------------------------------
(* Light sources: where they are sampled, how strongly, and what they show.
   A lamp:  k   "rect" (w x h, horizontal), "disk" (diameter w), "point"
            c   centre or position, in 1/10000
            w,h sizes in 1/100
            b   brightness (rect, disk) or power (point), three channels in 1/4
            tr  the motions it went through, in order:
                [k |-> "t", v]  move       [k |-> "s", o, n, d]  scale n/d about o
                [k |-> "r", a, co, si, o]  turn about an axis (1 x, 2 y, 3 z)
                                           through o; cosine co/5, sine si/5
   Flat lamps look down (-y) before they are moved. Positions are in 1/10000,
   unit vectors too, intensities in 1/1000000.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
V3(a, b, c) == <<a, b, c>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
AbsV(x) == IF x < 0 THEN -x ELSE x
Rnd(x, n) == IF x >= 0 THEN (x + (n \div 2)) \div n ELSE -((-x + (n \div 2)) \div n)
(* a*b/c rounded down, for a, b >= 0 and 0 < c < 2^30, without overflow *)
RECURSIVE MD(_, _, _)
MD(r, b, c) == IF b = 0 THEN <<0, 0>>
               ELSE LET hf == TLCEval(MD(r, TLCEval(b \div 2), c))
                        r2 == 2 * hf[2] - (IF 2 * hf[2] >= c THEN c ELSE 0)
                        q2 == 2 * hf[1] + (IF 2 * hf[2] >= c THEN 1 ELSE 0)
                    IN IF b % 2 = 0 THEN <<q2, r2>>
                       ELSE IF r2 >= c - r THEN <<q2 + 1, r2 - (c - r)>> ELSE <<q2, r2 + r>>
MulDiv(a, b, c) == LET A == TLCEval(a)  B == TLCEval(b)  C == TLCEval(c) IN (A \div C) * B + TLCEval(MD(TLCEval(A % C), B, C))[1]
MulDivS(a, b, c) == LET q == MulDiv(AbsV(a), AbsV(b), AbsV(c)) IN IF ((a < 0) # (b < 0)) # (c < 0) THEN -q ELSE q
RECURSIVE IsqB(_, _, _)
IsqB(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == TLCEval((lo + hi) \div 2) IN IF m * m <= n THEN IsqB(n, m, hi) ELSE IsqB(n, lo, m)
Isqrt(n) == IsqB(TLCEval(n), 0, 46340)

(* motions *)
Rot(a, co, si, v) ==
  CASE a = 1 -> <<v[1], Rnd(co * v[2] - si * v[3], 5), Rnd(si * v[2] + co * v[3], 5)>>
    [] a = 2 -> <<Rnd(co * v[1] + si * v[3], 5), v[2], Rnd(co * v[3] - si * v[1], 5)>>
    [] a = 3 -> <<Rnd(co * v[1] - si * v[2], 5), Rnd(si * v[1] + co * v[2], 5), v[3]>>
Scale(v, n, d) == <<Rnd(v[1] * n, d), Rnd(v[2] * n, d), Rnd(v[3] * n, d)>>
Move(op, p) == CASE op.k = "t" -> Add(p, op.v)
                 [] op.k = "r" -> Add(op.o, Rot(op.a, op.co, op.si, Sub(p, op.o)))
                 [] op.k = "s" -> Add(op.o, Scale(Sub(p, op.o), op.n, op.d))
Back(op, p) == CASE op.k = "t" -> Sub(p, op.v)
                 [] op.k = "r" -> Add(op.o, Rot(op.a, op.co, -op.si, Sub(p, op.o)))
                 [] op.k = "s" -> Add(op.o, Scale(Sub(p, op.o), op.d, op.n))
Turn(op, v) == IF op.k = "r" THEN Rot(op.a, op.co, op.si, v) ELSE v
TurnBack(op, v) == IF op.k = "r" THEN Rot(op.a, op.co, -op.si, v) ELSE v
RECURSIVE ToWorld(_, _, _), DirWorld(_, _, _), ToLocal(_, _, _), DirLocal(_, _, _), Grown(_, _, _)
ToWorld(tr, i, q) == IF i > Len(tr) THEN q ELSE ToWorld(tr, i + 1, TLCEval(Move(tr[i], q)))
DirWorld(tr, i, v) == IF i > Len(tr) THEN v ELSE DirWorld(tr, i + 1, TLCEval(Turn(tr[i], v)))
ToLocal(tr, i, q) == IF i = 0 THEN q ELSE ToLocal(tr, i - 1, TLCEval(Back(tr[i], q)))
DirLocal(tr, i, v) == IF i = 0 THEN v ELSE DirLocal(tr, i - 1, TLCEval(TurnBack(tr[i], v)))
(* square of the magnification, in 1/10000 *)
Grown(tr, i, g) == IF i > Len(tr) THEN g
                   ELSE Grown(tr, i + 1, IF tr[i].k = "s" THEN (g * tr[i].n * tr[i].n) \div (tr[i].d * tr[i].d) ELSE g)
Local(lp, q) == Sub(ToLocal(lp.tr, Len(lp.tr), q), lp.c)
NormalOf(lp) == DirWorld(lp.tr, 1, <<0, -10000, 0>>)
Scaled(lp) == Grown(lp.tr, 1, 10000)

(* a position a sample may have; m: margin *)
OnShape(lp, q, m) ==
  LET x == Local(lp, q) IN
  CASE lp.k = "rect" -> AbsV(x[2]) <= m /\ AbsV(x[1]) <= 50 * lp.w + m /\ AbsV(x[3]) <= 50 * lp.h + m
    [] lp.k = "disk" -> LET X == x[1] \div 10  Z == x[3] \div 10  R == 5 * lp.w + (m \div 10) + 1 IN
                        AbsV(x[2]) <= m /\ AbsV(X) <= R /\ AbsV(Z) <= R /\ X * X + Z * Z <= R * R
    [] lp.k = "point" -> \A i \in 1..3 : AbsV(x[i]) <= m
(* brightness times area (or power) of channel k, in 1/10000 *)
Power(lp, k) == IF lp.k = "point" THEN 2500 * lp.b[k]
                ELSE LET a == MulDiv(lp.b[k] * 2500, lp.w * (IF lp.k = "disk" THEN lp.w ELSE lp.h), 10000)
                         s == IF lp.k = "disk" THEN MulDiv(a, 785398, 1000000) ELSE a
                     IN MulDiv(s, Scaled(lp), 10000)
Dist2(d) == (d[1] \div 10) * (d[1] \div 10) + (d[2] \div 10) * (d[2] \div 10) + (d[3] \div 10) * (d[3] \div 10)   \* in 1/1000^2
(* cosine at the lamp towards target t, sampled at q *)
CosAt(lp, q, t) == IF lp.k = "point" THEN 2500                        \* 1/4, as if flat
                   ELSE LET d == TLCEval(Sub(t, q))  n == TLCEval(NormalOf(lp))
                            len == TLCEval(10 * Isqrt(Dist2(d)))
                            dot == (d[1] \div 10) * (n[1] \div 10) + (d[2] \div 10) * (n[2] \div 10) + (d[3] \div 10) * (n[3] \div 10)
                        IN IF len = 0 THEN 0 ELSE MulDivS(dot, 100, len)
(* for a given cosine *)
IntensityC(lp, q, t, k, c) == IF c <= 0 THEN 0 ELSE MulDiv(TLCEval(MulDiv(Power(lp, k), c * 100, 31416)), 1000000, Dist2(Sub(t, q)))
Intensity(lp, q, t, k) == IntensityC(lp, q, t, k, TLCEval(CosAt(lp, q, t)))
(* the sun, with its distance as the unit of length: a disk of angular diameter
   a/100 which shines on a horizontal surface with e/4 when in zenith; turned
   by a yaw and then up by a pitch from straight ahead (-z), facing back       *)
Sun(a, e, yaw, pitch) ==
  [k |-> "disk", c |-> <<0, 0, 0>>, w |-> a, h |-> a, b |-> [i \in 1..3 |-> (e[i] * 40000) \div (a * a)],
   tr |-> <<[k |-> "r", a |-> 1, co |-> 0, si |-> -5, o |-> <<0, 0, 0>>], [k |-> "t", v |-> <<0, 0, -10000>>],
            [k |-> "r", a |-> 1, co |-> pitch[1], si |-> pitch[2], o |-> <<0, 0, 0>>],
            [k |-> "r", a |-> 2, co |-> yaw[1], si |-> yaw[2], o |-> <<0, 0, 0>>]>>]
Near(a, b, rel, abs) == AbsV(a - b) <= abs + AbsV(b) \div rel

(* what is seen along a ray: <<"open">>, <<"none">>, <<"lamp", bright side>> *)
See(lp, s, d) ==
  IF lp.k = "point" THEN <<"none">>
  ELSE LET p == TLCEval(Local(lp, s))  v == TLCEval(DirLocal(lp.tr, Len(lp.tr), d)) IN
       IF AbsV(v[2]) < 600 \/ AbsV(p[2]) < 1000 THEN <<"open">>
       ELSE IF (p[2] > 0) = (v[2] > 0) THEN <<"none">>
       ELSE LET x == p[1] - MulDivS(v[1], p[2], v[2])  z == p[3] - MulDivS(v[3], p[2], v[2])
                m == 60 + (AbsV(x) + AbsV(z) + AbsV(p[1]) + AbsV(p[2]) + AbsV(p[3])) \div 500      \* error of the directions
                W == 50 * lp.w  H == 50 * lp.h
                X == x \div 10  Z == z \div 10  R == 5 * lp.w  M == m \div 10 + 1
                in == IF lp.k = "rect" THEN AbsV(x) < W - m /\ AbsV(z) < H - m
                      ELSE R > M /\ AbsV(X) < R /\ AbsV(Z) < R /\ X * X + Z * Z < (R - M) * (R - M)
                out == IF lp.k = "rect" THEN AbsV(x) > W + m \/ AbsV(z) > H + m
                       ELSE AbsV(X) > R + M \/ AbsV(Z) > R + M \/ X * X + Z * Z > (R + M) * (R + M)
            IN IF in THEN <<"lamp", p[2] < 0>> ELSE IF out THEN <<"none">> ELSE <<"open">>

-----------------------------------------------------------------------------
(* design: lamp, sampled point, target and a line of sight moved together *)
CONSTANTS Lamps, Ops, Points, Targets, MaxOps
VARIABLES lamp, q, t
LInit == /\ lamp \in Lamps /\ q \in {Add(lamp.c, x) : x \in Points} /\ t \in Targets
LNext == /\ Len(lamp.tr) < MaxOps
         /\ \E op \in Ops : /\ lamp' = [lamp EXCEPT !.tr = Append(@, op)]
                            /\ q' = Move(op, q) /\ t' = Move(op, t) /\ Scaled(lamp') \in 2500..40000
LSpec == LInit /\ [][LNext]_<<lamp, q, t>>
(* moving everything changes nothing; the inverse undoes a motion *)
Covariant == [][/\ \A k \in 1..3 : Near(Intensity(lamp', q', t', k), Intensity(lamp, q, t, k), 20, 20)
                                   \/ lamp.k = "point"
                /\ (OnShape(lamp, q, 40) => OnShape(lamp', q', 80))]_<<lamp, q, t>>
RoundTrip == \A i \in 1..3 : AbsV(ToLocal(lamp.tr, Len(lamp.tr), ToWorld(lamp.tr, 1, t))[i] - t[i]) <= 12
(* light goes where the lamp is seen: bright to the bright side, none to the other *)
Unit(v) == LET len == Isqrt(Dist2(v)) IN <<MulDivS(v[1], 1000, len), MulDivS(v[2], 1000, len), MulDivS(v[3], 1000, len)>>
Agree == LET w == See(lamp, t, Unit(Sub(q, t))) IN
         /\ w[1] = "lamp" => \A k \in 1..3 : (Intensity(lamp, q, t, k) > 0) = (w[2] /\ lamp.b[k] > 0)
         /\ OnShape(lamp, q, 40) => w[1] # "none" \/ lamp.k = "point"
         /\ w[1] = "lamp" /\ AbsV(Local(lamp, q)[2]) <= 40 => OnShape(lamp, q, 400)
(* farther by two, weaker by four *)
Fall == LET far == Add(q, Scale(Sub(t, q), 2, 1)) IN
        \A k \in 1..3 : Near(4 * Intensity(lamp, q, far, k), Intensity(lamp, q, t, k), 20, 20)
(* what arrives on a sphere around a flat lamp adds up to its power: sum over
   24 x 24 directions of equal weight (the sphere's area per direction is
   4 Pi r^2 / 576)                                                             *)
SinT == <<1305, 3827, 6088, 7934, 9239, 9914>>    \* sine of 7.5 + 15 i degrees
Sin24(i) == LET j == i % 24 IN IF j < 6 THEN SinT[j + 1] ELSE IF j < 12 THEN SinT[12 - j] ELSE IF j < 18 THEN -SinT[j - 11] ELSE -SinT[24 - j]
Sphere(i, j) == LET y == -10000 + (20000 * (2 * i + 1)) \div 48
                    r == 10 * Isqrt(1000000 - (y \div 10) * (y \div 10))
                IN <<2 * ((r * Sin24(j)) \div 10000), 2 * y, 2 * ((r * Sin24(j + 6)) \div 10000)>>      \* radius 2
RECURSIVE Flux(_, _)
Flux(lp, n) == IF n = 576 THEN 0 ELSE TLCEval(Intensity(lp, lp.c, TLCEval(Add(lp.c, Sphere(n \div 24, n % 24))), 1)) + Flux(lp, TLCEval(n + 1))
(* intensity 1e-6, area 4 Pi 4 / 576: in 1/10000 of power *)
Total == lamp.tr = <<>> /\ q = lamp.c /\ t[1] = 0 =>
         LET s == TLCEval(Flux(lamp, 0)) IN Near(MulDiv(s, 50265, 57600000), Power(lamp, 1), 30, 20)
=============================================================================
