-------------------------------- MODULE Geo --------------------------------
(* Rays and solids on an integer lattice (C07 - C11). One unit is 1/8 of the
   scene's unit of length; ray parameters t are in 1/1024.

   An object is a record:
     box  lo, hi          sph  c, r          cyl  dir, c, r, h (half height)
     tri  v, uv           mesh v, f, uv      rect c, w, d (half sizes)
     quad v (4 corners)   par  nu, nv, v     disk c, r
     cap  c, r, h (closed cylinder)          iso  lx, lz, hy, fn (height field)
     bak  (backdrop)
     and/or/res/dif/rem x, y  not/hol/bnd x  tree xs
     tr ops, x            remap dv, x        mat m, x
   with a material m in the primitives. A primitive has, along a ray, a set of
   surface crossings and an interval in which the ray is inside. The meaning of
   a composite is set algebra over these.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF == 99999          \* infinite extent (coordinate)
BIG == 100000000      \* infinite ray parameter
MARG == 192           \* genericity margin for ray parameters

(* evaluated at once: TLC would evaluate [i \in 1..3 |-> ...] at each access *)
T3(Op(_)) == <<Op(1), Op(2), Op(3)>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Mul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
AbsV(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
MinV(a, b) == IF a < b THEN a ELSE b
MaxV(a, b) == IF a > b THEN a ELSE b
Div(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b
Mod(a, b) == IF b < 0 THEN (-a) % (-b) ELSE a % b
(* a/b in 1/k without overflow *)
Ratio(a, b, k) == k * Div(a, b) + Div(k * Mod(a, b), AbsV(b))
RECURSIVE IsqrtB(_, _, _)
IsqrtB(n, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN IsqrtB(n, m, hi) ELSE IsqrtB(n, lo, m)
Isqrt(n) == IsqrtB(n, 0, 40000)

----------------------------------------------------------------------------
(* rigid motions with uniform scaling: world = (sn/sd) M x + off, M a rotation
   by quarter turns: (M x)[i] = s[i] * x[p[i]]                                *)
Unit == [p |-> <<1, 2, 3>>, s |-> <<1, 1, 1>>, off |-> <<0, 0, 0>>, sn |-> 1, sd |-> 1]
Lin(F, x) == T3(LAMBDA i : F.s[i] * x[F.p[i]])
Scl(F, x) == IF AbsV(x) >= INF THEN Sgn(x) * INF ELSE (x * F.sn) \div F.sd
Pt(F, x) == LET y == Lin(F, x) IN T3(LAMBDA i : IF AbsV(y[i]) >= INF THEN Sgn(y[i]) * INF ELSE F.off[i] + Scl(F, y[i]))
InvLin(F, x) == T3(LAMBDA j : LET i == CHOOSE i \in 1..3 : F.p[i] = j IN F.s[i] * x[i])
Comp(G, F) == [p |-> T3(LAMBDA i : F.p[G.p[i]]), s |-> T3(LAMBDA i : G.s[i] * F.s[G.p[i]]),
               off |-> Pt(G, F.off), sn |-> F.sn * G.sn, sd |-> F.sd * G.sd]   \* G after F
Quarter(a) == CASE a = 1 -> [p |-> <<1, 3, 2>>, s |-> <<1, -1, 1>>]
                [] a = 2 -> [p |-> <<3, 2, 1>>, s |-> <<1, 1, -1>>]
                [] a = 3 -> [p |-> <<2, 1, 3>>, s |-> <<-1, 1, 1>>]
QT(a) == [Unit EXCEPT !.p = Quarter(a).p, !.s = Quarter(a).s]
RECURSIVE Turn(_, _)
Turn(a, q) == IF q % 4 = 0 THEN Unit ELSE Comp(QT(a), Turn(a, (q % 4) - 1))
(* elementary motions; o is the fixed point. Turning left (yaw), up (pitch) and
   around the line of sight (roll) are quarter turns about y, x and z; combined,
   roll is applied first and yaw last. The last five motions refer to the box
   B the object has before the motion.                                        *)
About(R, o) == [R EXCEPT !.off = Sub(o, Lin(R, o))]
Shrunk(n, d, o) == [Unit EXCEPT !.sn = n, !.sd = d, !.off = Sub(o, T3(LAMBDA i : (o[i] * n) \div d))]
Centre(B) == T3(LAMBDA i : (B.lo[i] + B.hi[i]) \div 2)
Bottom(B) == [Centre(B) EXCEPT ![2] = B.lo[2]]
OpFrame(op, B) ==
  CASE op.k = "t" -> [Unit EXCEPT !.off = op.v]
    [] op.k = "r" -> About(Turn(op.a, op.q), op.o)
    [] op.k = "s" -> Shrunk(op.n, op.d, op.o)
    [] op.k = "mb" -> [Unit EXCEPT !.p = op.pp, !.s = op.ss, !.off = op.o]     \* to given base vectors
    [] op.k = "y" -> Turn(2, op.q)
    [] op.k = "p" -> Turn(1, op.q)
    [] op.k = "ro" -> Turn(3, op.q)
    [] op.k = "ypr" -> Comp(Turn(2, op.y), Comp(Turn(1, op.p), Turn(3, op.r)))
    [] op.k = "wc" -> [Unit EXCEPT !.off = Sub(op.v, Centre(B))]
    [] op.k = "wcb" -> [Unit EXCEPT !.off = Sub(op.v, Bottom(B))]
    [] op.k = "rc" -> About(Turn(op.a, op.q), Centre(B))
    [] op.k = "sc" -> Shrunk(op.n, op.d, Centre(B))
    [] op.k = "sts" -> LET w == B.hi[1] - B.lo[1] IN   \* to size l of something that is largest in x
                       IF 2 * op.l = w THEN Shrunk(1, 2, Centre(B)) ELSE Shrunk(op.l, w, Centre(B))

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RectCorners(o) == <<Add(o.c, <<-o.w, 0, -o.d>>), Add(o.c, <<-o.w, 0, o.d>>), Add(o.c, <<o.w, 0, o.d>>), Add(o.c, <<o.w, 0, -o.d>>)>>
(* height field y = hy f(u, v) for a linear f: a quadrilateral seen from above *)
IsoH(o, u, v) == CASE o.fn = 0 -> o.hy * u [] o.fn = 1 -> o.hy * (1 - u) [] o.fn = 2 -> o.hy * v [] o.fn = 3 -> o.hy * (1 - v)
                   [] o.fn = 4 -> (o.hy * (u + v)) \div 2 [] OTHER -> o.hy \div 2
IsoCorners(o) == <<<<0, IsoH(o, 0, 0), 0>>, <<0, IsoH(o, 0, 1), o.lz>>, <<o.lx, IsoH(o, 1, 1), o.lz>>, <<o.lx, IsoH(o, 1, 0), 0>>>>
(* exact extent of a primitive / smallest box that must be covered: the box of
   everything for unions, of the first operand cut by the second for "and"    *)
BB(lo, hi) == [lo |-> lo, hi |-> hi]
Join(a, b) == BB(<<MinV(a.lo[1], b.lo[1]), MinV(a.lo[2], b.lo[2]), MinV(a.lo[3], b.lo[3])>>,
                 <<MaxV(a.hi[1], b.hi[1]), MaxV(a.hi[2], b.hi[2]), MaxV(a.hi[3], b.hi[3])>>)
RECURSIVE HullN(_, _, _)
HullN(F, ps, n) == LET w == Pt(F, ps[n]) IN IF n = 1 THEN BB(w, w) ELSE Join(BB(w, w), HullN(F, ps, n - 1))
Hull(F, ps) == HullN(F, ps, Len(ps))
RECURSIVE Extent(_, _), ExtentN(_, _, _), OpsFrame(_, _)
(* motions applied to x one after the other, the first one first *)
OpsFrame(x, ops) == IF ops = <<>> THEN Unit
                    ELSE LET n == Len(ops)  P == OpsFrame(x, SubSeq(ops, 1, n - 1)) IN Comp(OpFrame(ops[n], Extent(x, P)), P)
Extent(o, F) ==
  CASE o.k = "box" -> Hull(F, <<o.lo, o.hi>>)
    [] o.k = "sph" -> LET c == Pt(F, o.c)  r == Scl(F, o.r) IN BB(T3(LAMBDA i : c[i] - r), T3(LAMBDA i : c[i] + r))
    [] o.k = "cyl" -> LET ax == CHOOSE i \in 1..3 : F.p[i] = o.dir
                          c == Pt(F, o.c)
                          r == T3(LAMBDA i : IF i = ax THEN Scl(F, o.h) ELSE Scl(F, o.r))
                      IN BB(T3(LAMBDA i : IF r[i] >= INF THEN -INF ELSE c[i] - r[i]), T3(LAMBDA i : IF r[i] >= INF THEN INF ELSE c[i] + r[i]))
    [] o.k = "cap" -> Hull(F, <<Sub(o.c, <<o.r, o.h, o.r>>), Add(o.c, <<o.r, o.h, o.r>>)>>)
    [] o.k = "disk" -> Hull(F, <<Sub(o.c, <<o.r, 0, o.r>>), Add(o.c, <<o.r, 0, o.r>>)>>)
    [] o.k = "iso" -> Hull(F, IsoCorners(o))
    [] o.k = "bak" -> BB(<<-INF, -INF, -INF>>, <<INF, INF, INF>>)
    [] o.k \in {"tri", "quad"} -> Hull(F, o.v)
    [] o.k = "mesh" -> Hull(F, Cat([i \in 1..Len(o.f) |-> <<o.v[o.f[i][1]], o.v[o.f[i][2]], o.v[o.f[i][3]]>>]))
    [] o.k = "par" -> Hull(F, o.v)
    [] o.k = "rect" -> Hull(F, RectCorners(o))
    [] o.k \in {"hol", "bnd", "mat", "remap"} -> Extent(o.x, F)
    [] o.k = "tr" -> Extent(o.x, Comp(F, OpsFrame(o.x, o.ops)))
    [] o.k = "not" -> BB(<<-INF, -INF, -INF>>, <<INF, INF, INF>>)
    [] o.k = "or" -> LET a == Extent(o.x, F)  b == Extent(o.y, F) IN BB(T3(LAMBDA i : MinV(a.lo[i], b.lo[i])), T3(LAMBDA i : MaxV(a.hi[i], b.hi[i])))
    [] o.k \in {"and", "res"} -> LET a == Extent(o.x, F)  b == Extent(o.y, F) IN BB(T3(LAMBDA i : MaxV(a.lo[i], b.lo[i])), T3(LAMBDA i : MinV(a.hi[i], b.hi[i])))
    [] o.k \in {"dif", "rem"} -> Extent(o.x, F)
    [] o.k = "tree" -> ExtentN(o.xs, F, Len(o.xs))
ExtentN(xs, F, n) == IF n = 1 THEN Extent(xs[1], F) ELSE Join(Extent(xs[n], F), ExtentN(xs, F, n - 1))

----------------------------------------------------------------------------
(* primitives along the ray S + t D *)
P16(S, D, t) == T3(LAMBDA i : 16 * S[i] + ((t * D[i]) \div 64))       \* position, in 1/16 unit
LocalP(F, p16) == LET y == InvLin(F, Sub(p16, Mul(16, F.off))) IN T3(LAMBDA i : (y[i] * F.sd) \div F.sn)
Crossing(t, N, m, lk, loc, F) == [t |-> t, N |-> N, m |-> m, lk |-> lk, loc |-> loc]
Leaf(cr, a, b, crit, gen) == [k |-> "leaf", cr |-> cr, a |-> a, b |-> b, crit |-> crit, gen |-> gen]
Nothing(gen) == Leaf({}, 1, 0, <<>>, gen)
Far(a, b) == AbsV(a - b) >= MARG

SlabT(s, d, x) == IF AbsV(x) >= INF THEN (IF (x > 0) = (d > 0) THEN BIG ELSE -BIG) ELSE Div((x - s) * 1024, d)
Slab(s, d, lo, hi) == IF d = 0 THEN (IF lo < s /\ s < hi THEN <<-BIG, BIG>> ELSE <<BIG, -BIG>>)
                      ELSE IF d > 0 THEN <<SlabT(s, d, lo), SlabT(s, d, hi)>> ELSE <<SlabT(s, d, hi), SlabT(s, d, lo)>>
E(i, k) == T3(LAMBDA j : IF j = i THEN k ELSE 0)
FiniteT(ts) == SelectSeq(ts, LAMBDA t : AbsV(t) < BIG)

BoxEv(o, F, S, D) ==
  LET p == Pt(F, o.lo)  q == Pt(F, o.hi)
      lo == T3(LAMBDA i : MinV(p[i], q[i]))  hi == T3(LAMBDA i : MaxV(p[i], q[i]))
      sl == T3(LAMBDA i : Slab(S[i], D[i], lo[i], hi[i]))
      a == MaxV(sl[1][1], MaxV(sl[2][1], sl[3][1]))
      b == MinV(sl[1][2], MinV(sl[2][2], sl[3][2]))
      ia == CHOOSE i \in 1..3 : sl[i][1] = a
      ib == CHOOSE i \in 1..3 : sl[i][2] = b
      gen == /\ \A i \in 1..3 : D[i] = 0 => S[i] # lo[i] /\ S[i] # hi[i]
             /\ Far(a, b)
             /\ a < b => /\ \A i \in 1..3 : i # ia => a - sl[i][1] >= MARG
                         /\ \A i \in 1..3 : i # ib => sl[i][2] - b >= MARG
      loc(t) == LET x == LocalP(F, P16(S, D, t)) IN Sub(x, Mul(16, o.lo))
  IN IF a >= b THEN Nothing(gen)
     ELSE Leaf({Crossing(a, E(ia, -Sgn(D[ia])), o.m, "p", loc(a), F) : x \in IF AbsV(a) < BIG THEN {0} ELSE {}}
               \cup {Crossing(b, E(ib, Sgn(D[ib])), o.m, "p", loc(b), F) : x \in IF AbsV(b) < BIG THEN {0} ELSE {}},
               a, b, FiniteT(<<a, b>>), gen)

(* quadrics: sum of (x-c)^2 over the axes with w[i] = 1 equals r^2, within the
   slab (lo, hi) along axis `ax` (0: none) *)
QuadricEv(o, F, S, D, c, r, w, ax, lo, hi) ==
  LET s == Sub(S, c)
      A == w[1] * D[1] * D[1] + w[2] * D[2] * D[2] + w[3] * D[3] * D[3]
      B == 2 * (w[1] * D[1] * s[1] + w[2] * D[2] * s[2] + w[3] * D[3] * s[3])
      C == w[1] * s[1] * s[1] + w[2] * s[2] * s[2] + w[3] * s[3] * s[3] - r * r
      Disc == B * B - 4 * A * C
      k == CHOOSE j \in {8, 16, 32, 64, 128, 256} : /\ Disc <= 1500000000 \div (j * j)
                                                     /\ j < 256 => Disc > 1500000000 \div (4 * j * j)
      q == Isqrt(k * k * Disc)
      t1 == Ratio(-B * k - q, 2 * A * k, 1024)
      t2 == Ratio(-B * k + q, 2 * A * k, 1024)
      sl == IF ax = 0 THEN <<-BIG, BIG>> ELSE Slab(S[ax], D[ax], lo, hi)
      N(t) == LET x == T3(LAMBDA i : 128 * (S[i] - c[i]) + ((t * D[i]) \div 8)) IN T3(LAMBDA i : w[i] * x[i])
      loc(t) == Sub(LocalP(F, P16(S, D, t)), Mul(16, o.c))
      a == MaxV(t1, sl[1])  b == MinV(t2, sl[2])
      slgen == IF ax = 0 THEN TRUE ELSE D[ax] = 0 => S[ax] # lo /\ S[ax] # hi
  IN IF A = 0 THEN LET gen == AbsV(C) >= 16 /\ slgen /\ Far(sl[1], sl[2]) /\ sl[2] < BIG IN
                   IF C < 0 /\ sl[1] < sl[2] THEN Leaf({}, sl[1], sl[2], FiniteT(sl), gen) ELSE Nothing(gen)
     ELSE IF Disc < 0 THEN Nothing(64 * (-Disc) >= 2 * A * A)
     ELSE LET gen == /\ 64 * Disc >= 2 * A * A /\ slgen /\ A * k >= 128
                     /\ Far(t1, sl[1]) /\ Far(t1, sl[2]) /\ Far(t2, sl[1]) /\ Far(t2, sl[2]) /\ Far(t1, t2)
          IN Leaf({Crossing(t, N(t), o.m, "p", loc(t), F) : t \in {u \in {t1, t2} : sl[1] < u /\ u < sl[2]}},
                  a, b, FiniteT(<<t1, t2>> \o sl), gen)
SphEv(o, F, S, D) == QuadricEv(o, F, S, D, Pt(F, o.c), Scl(F, o.r), <<1, 1, 1>>, 0, 0, 0)
CylEv(o, F, S, D) ==
  LET ax == CHOOSE i \in 1..3 : F.p[i] = o.dir
      c == Pt(F, o.c)
      h == IF o.h >= INF THEN INF ELSE Scl(F, o.h)
      lo == IF h >= INF THEN -INF ELSE c[ax] - h
      hi == IF h >= INF THEN INF ELSE c[ax] + h
  IN QuadricEv(o, F, S, D, c, Scl(F, o.r), T3(LAMBDA i : IF i = ax THEN 0 ELSE 1), ax, lo, hi)

(* a cylinder closed by two caps: enters and leaves where its inside begins and ends *)
CapEv(o, F, S, D) ==
  LET e == CylEv([c |-> o.c, r |-> o.r, h |-> o.h, dir |-> 2, m |-> o.m], F, S, D)
      ax == CHOOSE i \in 1..3 : F.p[i] = 2
      side == {c.t : c \in e.cr}
      corner == Sub(o.c, <<o.r, o.h, o.r>>)
      caps == {Crossing(t, E(ax, IF t = e.b THEN Sgn(D[ax]) ELSE -Sgn(D[ax])), o.m, "p",
                        Sub(LocalP(F, P16(S, D, t)), Mul(16, corner)), F) : t \in {e.a, e.b} \ side}
  IN IF e.a >= e.b THEN e ELSE [e EXCEPT !.cr = e.cr \cup caps]

(* a triangle with world corners a, b, c and corner coordinates uv (1/1000); pl:
   its normal is that of the plane (it is smoothed with its neighbours otherwise) *)
TriCr(a, b, c, uv, m, pl, F, S, D) ==
  LET N == Cross(Sub(b, a), Sub(c, a))
      nd == Dot(N, D)
      x == Sub(a, S)  y == Sub(b, S)  z == Sub(c, S)
      w1 == Sgn(nd) * Dot(D, Cross(y, z))
      w2 == Sgn(nd) * Dot(D, Cross(z, x))
      w3 == Sgn(nd) * Dot(D, Cross(x, y))
      n == AbsV(nd)
      hit == w1 > 0 /\ w2 > 0 /\ w3 > 0
      gen == \/ 50 * w1 >= n /\ 50 * w2 >= n /\ 50 * w3 >= n
             \/ 50 * w1 <= -n \/ 50 * w2 <= -n \/ 50 * w3 <= -n
      t == Ratio(Dot(N, x), nd, 1024)
      co(k) == Div(uv[1][k] * w1 + uv[2][k] * w2 + uv[3][k] * w3, n)
  IN IF nd = 0 THEN [cr |-> {}, crit |-> <<>>, gen |-> Dot(N, x) # 0]
     ELSE IF ~hit THEN [cr |-> {}, crit |-> <<>>, gen |-> gen]
     ELSE [cr |-> {Crossing(t, IF pl THEN N ELSE <<0, 0, 0>>, m, "uv", <<co(1), co(2), 0>>, F)}, crit |-> <<t>>, gen |-> gen]
(* many triangles: corners vs (world), index triples fs, corner coordinates *)
MeshEv(vs, fs, uv, m, pl, F, S, D) ==
  LET ev == [i \in 1..Len(fs) |-> LET f == fs[i] IN TriCr(vs[f[1]], vs[f[2]], vs[f[3]], <<uv[f[1]], uv[f[2]], uv[f[3]]>>, m, pl, F, S, D)]
  IN Leaf(UNION {ev[i].cr : i \in 1..Len(fs)}, 1, 0, Cat([i \in 1..Len(fs) |-> ev[i].crit]), \A i \in 1..Len(fs) : ev[i].gen)
RECURSIVE WN(_, _, _)
WN(F, vs, n) == IF n = 0 THEN <<>> ELSE Append(WN(F, vs, n - 1), Pt(F, vs[n]))
W(F, vs) == WN(F, vs, Len(vs))
SquareUV == <<<<0, 0>>, <<1000, 0>>, <<1000, 1000>>, <<0, 1000>>>>
TwoTri == <<<<1, 2, 4>>, <<3, 4, 2>>>>
IsoUV == <<<<0, 0>>, <<0, 1000>>, <<1000, 1000>>, <<1000, 0>>>>
(* parametric surface: nu x nv corners, cells cut along the diagonal *)
ParFaces(nu, nv) == LET I(i, j) == i * nv + j + 1 IN
   Cat([k \in 1..((nu - 1) * (nv - 1)) |-> LET i == (k - 1) \div (nv - 1)  j == (k - 1) % (nv - 1) IN
        <<<<I(i, j), I(i + 1, j), I(i + 1, j + 1)>>, <<I(i, j), I(i + 1, j + 1), I(i, j + 1)>>>>])
ParUV(nu, nv) == [k \in 1..(nu * nv) |-> <<(1000 * ((k - 1) \div nv)) \div (nu - 1), (1000 * ((k - 1) % nv)) \div (nv - 1)>>]

RECURSIVE Ev(_, _, _, _)
Ev(o, F, S, D) ==
  CASE o.k = "box" -> BoxEv(o, F, S, D)
    [] o.k = "sph" -> SphEv(o, F, S, D)
    [] o.k = "cyl" -> CylEv(o, F, S, D)
    [] o.k = "tri" -> MeshEv(W(F, o.v), <<<<1, 2, 3>>>>, <<<<0, 0>>, <<1000, 0>>, <<0, 1000>>>>, o.m, TRUE, F, S, D)
    [] o.k = "rect" -> MeshEv(W(F, RectCorners(o)), TwoTri, SquareUV, o.m, TRUE, F, S, D)
    [] o.k = "quad" -> MeshEv(W(F, o.v), TwoTri, SquareUV, o.m, TRUE, F, S, D)
    [] o.k = "iso" -> MeshEv(W(F, IsoCorners(o)), TwoTri, IsoUV, o.m, TRUE, F, S, D)
    [] o.k = "mesh" -> MeshEv(W(F, o.v), o.f, o.uv, o.m, o.pl, F, S, D)
    [] o.k = "par" -> MeshEv(W(F, o.v), ParFaces(o.nu, o.nv), ParUV(o.nu, o.nv), o.m, o.pl, F, S, D)
    [] o.k = "cap" -> CapEv(o, F, S, D)
    [] o.k = "disk" -> [k |-> "res", x |-> Ev([k |-> "rect", c |-> o.c, w |-> o.r, d |-> o.r, m |-> o.m], F, S, D),
                        y |-> CylEv([c |-> o.c, r |-> o.r, h |-> 1, dir |-> 2, m |-> 0], F, S, D)]
    [] o.k = "bak" -> Leaf({Crossing(BIG - 1, D, o.m, "no", <<0, 0, 0>>, F)}, 1, 0, <<>>, TRUE)
    [] o.k = "rem" -> [k |-> "res", x |-> Ev(o.x, F, S, D), y |-> [k |-> "not", x |-> Ev(o.y, F, S, D)]]
    [] o.k \in {"and", "or", "res", "dif"} -> [k |-> o.k, x |-> Ev(o.x, F, S, D), y |-> Ev(o.y, F, S, D)]
    [] o.k \in {"not", "hol", "bnd"} -> [k |-> o.k, x |-> Ev(o.x, F, S, D)]
    [] o.k = "mat" -> [k |-> "mat", m |-> o.m, x |-> Ev(o.x, F, S, D)]
    [] o.k = "remap" -> [k |-> "remap", d |-> o.dv, F |-> F, S |-> S, D |-> D, x |-> Ev(o.x, F, S, D)]
    [] o.k = "tree" -> [k |-> "tree", xs |-> [i \in 1..Len(o.xs) |-> Ev(o.xs[i], F, S, D)]]
    [] o.k = "tr" -> Ev(o.x, Comp(F, OpsFrame(o.x, o.ops)), S, D)

RECURSIVE In(_, _)
In(e, t) == CASE e.k = "leaf" -> e.a < t /\ t < e.b
              [] e.k = "and" \/ e.k = "res" -> In(e.x, t) /\ In(e.y, t)
              [] e.k = "or" -> In(e.x, t) \/ In(e.y, t)
              [] e.k = "dif" -> In(e.x, t) /\ ~In(e.y, t)
              [] e.k = "not" -> ~In(e.x, t)
              [] e.k = "hol" -> FALSE
              [] e.k \in {"bnd", "mat", "remap"} -> In(e.x, t)
              [] e.k = "tree" -> \E i \in 1..Len(e.xs) : In(e.xs[i], t)
Flip(c) == [c EXCEPT !.N = Mul(-1, c.N)]
RECURSIVE Cr(_)
Cr(e) == CASE e.k = "leaf" -> e.cr
           [] e.k = "and" -> {c \in Cr(e.x) : In(e.y, c.t)} \cup {c \in Cr(e.y) : In(e.x, c.t)}
           [] e.k = "or" -> {c \in Cr(e.x) : ~In(e.y, c.t)} \cup {c \in Cr(e.y) : ~In(e.x, c.t)}
           [] e.k = "res" -> {c \in Cr(e.x) : In(e.y, c.t)}
           [] e.k = "dif" -> {c \in Cr(e.x) : ~In(e.y, c.t)} \cup {Flip(c) : c \in {d \in Cr(e.y) : In(e.x, d.t)}}
           [] e.k = "not" -> {Flip(c) : c \in Cr(e.x)}
           [] e.k = "hol" \/ e.k = "bnd" -> Cr(e.x)
           [] e.k = "mat" -> {[c EXCEPT !.m = e.m] : c \in Cr(e.x)}
           [] e.k = "remap" -> {[c EXCEPT !.lk = "p", !.loc = Add(LocalP(e.F, P16(e.S, e.D, c.t)), Mul(16, e.d))] : c \in Cr(e.x)}
           [] e.k = "tree" -> UNION {Cr(e.xs[i]) : i \in 1..Len(e.xs)}
RECURSIVE Crits(_), Gens(_)
Crits(e) == CASE e.k = "leaf" -> e.crit
              [] e.k \in {"and", "or", "res", "dif"} -> Crits(e.x) \o Crits(e.y)
              [] e.k = "tree" -> Cat([i \in 1..Len(e.xs) |-> Crits(e.xs[i])])
              [] OTHER -> Crits(e.x)
Gens(e) == CASE e.k = "leaf" -> e.gen
             [] e.k \in {"and", "or", "res", "dif"} -> Gens(e.x) /\ Gens(e.y)
             [] e.k = "tree" -> \A i \in 1..Len(e.xs) : Gens(e.xs[i])
             [] OTHER -> Gens(e.x)
(* in general position: no decision hangs on (nearly) equal numbers *)
Generic(e) == /\ Gens(e)
              /\ LET c == Crits(e) IN /\ \A i \in 1..Len(c) : Far(c[i], 0)
                                      /\ \A i, j \in 1..Len(c) : i < j => Far(c[i], c[j])
Positive(e) == {c \in Cr(e) : c.t > 0}
Nearest(cs) == CHOOSE c \in cs : \A d \in cs : c.t <= d.t

----------------------------------------------------------------------------
(* inside, at a point *)
(* height of the field above a point of its box (in 1/16), up to a positive factor *)
IsoAbove(o, L) == (CASE o.fn = 0 -> 2 * o.hy * L[1] * o.lz
                     [] o.fn = 1 -> 2 * o.hy * (16 * o.lx - L[1]) * o.lz
                     [] o.fn = 2 -> 2 * o.hy * L[3] * o.lx
                     [] o.fn = 3 -> 2 * o.hy * (16 * o.lz - L[3]) * o.lx
                     [] o.fn = 4 -> o.hy * (L[1] * o.lz + L[3] * o.lx)
                     [] OTHER -> 16 * o.hy * o.lx * o.lz) - 2 * L[2] * o.lx * o.lz
RECURSIVE InP(_, _, _)
Between(F, lo, hi, P) == LET p == Pt(F, lo)  q == Pt(F, hi) IN \A i \in 1..3 : MinV(p[i], q[i]) < P[i] /\ P[i] < MaxV(p[i], q[i])
InP(o, F, P) ==
  CASE o.k = "box" -> Between(F, o.lo, o.hi, P)
    [] o.k = "sph" -> LET d == Sub(P, Pt(F, o.c)) IN Dot(d, d) < Scl(F, o.r) * Scl(F, o.r)
    [] o.k = "cyl" -> LET ax == CHOOSE i \in 1..3 : F.p[i] = o.dir
                          d == Sub(P, Pt(F, o.c))
                          e == T3(LAMBDA i : IF i = ax THEN 0 ELSE d[i])
                      IN Dot(e, e) < Scl(F, o.r) * Scl(F, o.r) /\ AbsV(d[ax]) < Scl(F, o.h)
    [] o.k = "cap" -> InP([k |-> "cyl", c |-> o.c, r |-> o.r, h |-> o.h, dir |-> 2], F, P)
    [] o.k = "iso" -> LET L == LocalP(F, Mul(16, P)) IN
                      Between(Unit, <<0, 0, 0>>, <<16 * o.lx, 16 * o.hy, 16 * o.lz>>, L) /\ IsoAbove(o, L) > 0
    [] o.k = "rem" -> InP(o.x, F, P) /\ ~InP(o.y, F, P)
    [] o.k \in {"tri", "rect", "quad", "mesh", "par", "hol", "disk", "bak"} -> FALSE
    [] o.k \in {"and", "res"} -> InP(o.x, F, P) /\ InP(o.y, F, P)
    [] o.k = "or" -> InP(o.x, F, P) \/ InP(o.y, F, P)
    [] o.k = "dif" -> InP(o.x, F, P) /\ ~InP(o.y, F, P)
    [] o.k = "not" -> ~InP(o.x, F, P)
    [] o.k \in {"bnd", "mat", "remap"} -> InP(o.x, F, P)
    [] o.k = "tree" -> \E i \in 1..Len(o.xs) : InP(o.xs[i], F, P)
    [] o.k = "tr" -> InP(o.x, Comp(F, OpsFrame(o.x, o.ops)), P)
(* the point is on no primitive's surface: within one unit nothing changes *)
RECURSIVE PGen(_, _, _)
PGen(o, F, P) ==
  CASE o.k = "box" -> LET p == Pt(F, o.lo)  q == Pt(F, o.hi) IN \A i \in 1..3 : P[i] # p[i] /\ P[i] # q[i]
    [] o.k = "sph" -> LET d == Sub(P, Pt(F, o.c)) IN Dot(d, d) # Scl(F, o.r) * Scl(F, o.r)
    [] o.k = "cyl" -> LET ax == CHOOSE i \in 1..3 : F.p[i] = o.dir
                          d == Sub(P, Pt(F, o.c))
                          e == T3(LAMBDA i : IF i = ax THEN 0 ELSE d[i])
                      IN Dot(e, e) # Scl(F, o.r) * Scl(F, o.r) /\ AbsV(d[ax]) # Scl(F, o.h)
    [] o.k = "cap" -> PGen([k |-> "cyl", c |-> o.c, r |-> o.r, h |-> o.h, dir |-> 2], F, P)
    [] o.k \in {"tri", "rect", "quad", "mesh", "par", "hol", "disk", "bak"} -> TRUE
    [] o.k = "iso" -> LET L == LocalP(F, Mul(16, P)) IN
                      IsoAbove(o, L) # 0 /\ \A i \in 1..3 : L[i] # 0 /\ L[i] # 16 * <<o.lx, o.hy, o.lz>>[i]
    [] o.k \in {"and", "res", "or", "dif", "rem"} -> PGen(o.x, F, P) /\ PGen(o.y, F, P)
    [] o.k \in {"not", "bnd", "mat", "remap"} -> PGen(o.x, F, P)
    [] o.k = "tree" -> \A i \in 1..Len(o.xs) : PGen(o.xs[i], F, P)
    [] o.k = "tr" -> PGen(o.x, Comp(F, OpsFrame(o.x, o.ops)), P)

=============================================================================
