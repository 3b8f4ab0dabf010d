------------------------------ MODULE GeoTrace ------------------------------
(* Judges what the real code reports about an object: hits along rays, inside
   points and the bounding box. Rays not in general position are skipped.     *)
EXTENDS Geo, TraceBase

TTOL == 8
SameDir(n, N) == LET c == Cross(n, N)  m == MaxV(AbsV(N[1]), MaxV(AbsV(N[2]), AbsV(N[3]))) IN
                 /\ \A i \in 1..3 : AbsV(c[i]) <= 25 * m
                 /\ Dot(n, N) > 0
                 /\ Near(Dot(n, n), 1000000, 4000)
(* keep the products above small *)
RECURSIVE Small(_)
Small(N) == IF \A i \in 1..3 : AbsV(N[i]) <= 20000 THEN N ELSE Small(T3(LAMBDA i : N[i] \div 2))
HitOk(r, c) ==
  /\ IF c.t >= BIG - 1 THEN r.t >= 1900000000 ELSE Near(r.t, c.t, TTOL)
  /\ r.m = c.m
  /\ c.N # <<0, 0, 0>> => SameDir(r.n, Small(c.N))
  /\ c.lk = "p" => \A i \in 1..3 : Near(r.lp[i], c.loc[i], 6)
  /\ c.lk = "uv" => \A i \in 1..3 : Near(r.lu[i], c.loc[i], 6)
RayOk(o, r) ==
  LET e == Ev(o, Unit, r.s, r.d) IN
  IF ~Generic(e) THEN TRUE
  ELSE LET ps == Positive(e) IN
       /\ JCount(1)
       /\ r.msg = ""
       /\ IF ps = {} THEN r.t = 0 ELSE HitOk(r, Nearest(ps))
PtOk(o, q) == IF PGen(o, Unit, q.p) THEN JCount(1) /\ (q.in = InP(o, Unit, q.p)) ELSE TRUE

(* the reported box (1/1024) covers what it must; 2 for rounding *)
RECURSIVE Exact(_)
Exact(o) == CASE o.k \in {"and", "res", "dif", "rem"} -> FALSE
              [] o.k = "or" -> Exact(o.x) /\ Exact(o.y)
              [] o.k = "not" -> o.x.k \in {"box", "sph", "cyl"}
              [] o.k = "tree" -> \A i \in 1..Len(o.xs) : Exact(o.xs[i])
              [] o.k \in {"hol", "bnd", "mat", "remap", "tr"} -> Exact(o.x)
              [] OTHER -> TRUE
Covers(o, b) == Exact(o) => LET x == Extent(o, Unit) IN
                \A i \in 1..3 : b.lo[i] <= 128 * x.lo[i] + 2 /\ b.hi[i] >= 128 * x.hi[i] - 2
Contains(b, p) == \A i \in 1..3 : b.lo[i] - 2 <= p[i] /\ p[i] <= b.hi[i] + 2
NaNFree(b) == \A i \in 1..3 : b.lo[i] > -2000000000 /\ b.hi[i] > -2000000000

Idx(s) == 1..Len(s)
(* height field with heights h at nu x nv corners: the surface at half-integer
   grid position (i/2, j/2), where cells are cut from (i, j) to (i+1, j+1)    *)
GapOk(x, r) ==
  LET H(i, j) == x.h[i * x.nv + j + 1]
      a == r.i \div 2  b == r.j \div 2
      h == (H(a, b) + H(a + (r.i % 2), b + (r.j % 2))) \div 2
  IN r.msg = "" /\ r.t = 1024 * (r.dir * h + 32) /\ r.m = x.m
(* large collections: cell (i, j, k) of a lattice which grows along axis a as
   4i + q[a]*i*i holds a box or ball of size 2 unless (7i + 11j + 13k) % mod = 0 *)
CPos(x, a, i) == 4 * i + x.q[a] * i * i
Full(x, c) == (7 * c[1] + 11 * c[2] + 13 * c[3]) % x.mod # 0
(* the first filled cell of a line at or after index i, going one way *)
RECURSIVE First(_, _, _, _, _)
First(x, c, ax, sg, i) == IF i < 0 \/ i >= x.dim[ax] THEN -1
                          ELSE IF Full(x, [c EXCEPT ![ax] = i]) THEN i ELSE First(x, c, ax, sg, i + sg)
ManyRay(x, r) ==
  LET i0 == r.cell[r.ax]
      within == i0 >= 0 /\ r.s = CPos(x, r.ax, i0) + 1     \* starts in the middle of cell i0, or just beyond it
      here == within /\ Full(x, r.cell)
      i == IF here THEN i0 ELSE First(x, r.cell, r.ax, r.sg, IF r.sg > 0 THEN i0 + 1 ELSE IF within THEN i0 - 1 ELSE i0)
      lo == CPos(x, r.ax, i)
      face == IF (r.sg > 0) = here THEN lo + 2 ELSE lo
      c == [r.cell EXCEPT ![r.ax] = i]
  IN JCount(1) /\ IF r.off = 1 \/ i < 0 THEN r.t = 0 /\ r.m = -1
                  ELSE r.t = 64 * AbsV(face - r.s) /\ r.m = (c[1] * x.dim[2] + c[2]) * x.dim[3] + c[3]
Filled(x, i) == Cardinality({c \in {i} \X (0..(x.dim[2] - 1)) \X (0..(x.dim[3] - 1)) : Full(x, c)})
ManyOk(x) == /\ \A i \in Idx(x.slabs) : LET n == Filled(x, i - 1) IN
                  /\ JCount(n) /\ x.slabs[i][2] = n /\ (x.how # 3 => x.slabs[i][1] = n)
             /\ \A i \in Idx(x.rays) : ManyRay(x, x.rays[i])
             /\ \A i \in Idx(x.pts) : JCount(1) /\ x.pts[i].in = (x.pts[i].off = 0 /\ Full(x, x.pts[i].cell))
(* a smooth surface: at each corner the mean of the unit normals of the faces that
   share it, within a face the corners' normals weighted as the position is; w/8
   are the weights, all but one coordinate of the start are those of the point    *)
(* rounded alike in both directions: opposite normals cancel *)
Unit1000(N) == LET len == Isqrt(10000 * Dot(N, N))
                   q(a) == (100000 * a + len \div 2) \div len
               IN T3(LAMBDA i : IF N[i] < 0 THEN -q(-N[i]) ELSE q(N[i]))
RECURSIVE SumN(_, _, _)
SumN(ns, ks, n) == IF n = 0 THEN <<0, 0, 0>> ELSE Add(SumN(ns, ks, n - 1), IF ks[n] THEN ns[n] ELSE <<0, 0, 0>>)
SmoothOk(x) ==
  LET F == IF x.par THEN ParFaces(x.o.nu, x.o.nv) ELSE x.f
      ns == TLCEval([i \in Idx(F) |-> Unit1000(Cross(Sub(x.v[F[i][2]], x.v[F[i][1]]), Sub(x.v[F[i][3]], x.v[F[i][1]])))])
      sum(c) == SumN(ns, [i \in Idx(F) |-> c \in {F[i][1], F[i][2], F[i][3]}], Len(F))
  IN \A k \in Idx(x.rays) :
       LET r == x.rays[k]  f == F[r.f]
           s == TLCEval([c \in 1..3 |-> sum(f[c])])
           len == TLCEval([c \in 1..3 |-> Isqrt(Dot(s[c], s[c]))])
           N == T3(LAMBDA i : LET n(c) == r.w[c] * ((1000 * s[c][i]) \div len[c]) IN n(1) + n(2) + n(3))
           y == r.w[1] * x.v[f[1]][x.ax] + r.w[2] * x.v[f[2]][x.ax] + r.w[3] * x.v[f[3]][x.ax]
       IN /\ f = x.f[r.f] /\ r.w[1] + r.w[2] + r.w[3] = 8
          /\ r.m = x.o.m /\ Near(r.t, 128 * (256 + r.dir * y), 2)
          /\ \A i \in 1..3 : r.n[i] \in -1000..1000 (* defined even where the faces of a corner cancel *)
          /\ ((\A c \in 1..3 : len[c] >= 500) /\ Dot(N, N) >= 4000000) => JCount(1) /\ SameDir(r.n, N)
(* affine maps with whole coefficients: images of points and of directions *)
OnBase(op, v) == Add(Mul(v[1], op.x), Add(Mul(v[2], op.y), Mul(v[3], op.z)))
Lin1(op, v) == CASE op.k = "t" -> v [] op.k = "r" -> Lin(Turn(op.a, op.q), v) [] op.k = "s" -> Mul(op.n, v) [] OTHER -> OnBase(op, v)
Aff1(op, v) == CASE op.k = "t" -> Add(v, op.v)
                 [] op.k \in {"r", "s"} -> Add(op.o, Lin1(op, Sub(v, op.o)))
                 [] op.k = "mb" -> Add(op.o, OnBase(op, v))
                 [] op.k = "mbo" -> Add(op.c, Add(op.o, OnBase(op, Sub(v, op.c))))
RECURSIVE AffP(_, _, _), AffD(_, _, _)
AffP(ops, v, k) == IF k = 0 THEN v ELSE Aff1(ops[k], AffP(ops, v, k - 1))
AffD(ops, v, k) == IF k = 0 THEN v ELSE Lin1(ops[k], AffD(ops, v, k - 1))
AffOk(x) == /\ x.q = AffP(x.ops, x.p, Len(x.ops)) /\ x.e = AffD(x.ops, x.d, Len(x.ops))
            /\ \A i \in 1..3 : Near(x.back[i], 1000 * x.p[i], 1)
Ok(x) ==
  CASE x.ev = "rays" -> x.msg = "" /\ \A i \in Idx(x.rays) : RayOk(x.o, x.rays[i])
    [] x.ev = "pts" -> x.msg = "" /\ \A i \in Idx(x.pts) : PtOk(x.o, x.pts[i])
    (* every observed hit and every inside point lies in the reported box *)
    [] x.ev = "bnd" -> /\ x.msg = "" /\ NaNFree(x.b) /\ Covers(x.o, x.b)
                       /\ \A i \in Idx(x.hits) : Contains(x.b, x.hits[i])
                       /\ \A i \in Idx(x.ins) : Contains(x.b, Mul(128, x.ins[i]))
                       /\ JCount(Len(x.hits) + Len(x.ins) + 1)
    (* only what was observed: hits within the box (objects turned by any angle) *)
    [] x.ev = "box" -> /\ x.msg = "" /\ NaNFree(x.b) /\ \A i \in Idx(x.hits) : Contains(x.b, x.hits[i])
                       /\ \A i \in Idx(x.ts) : Near(x.ts[i][1], x.ts[i][2], 2)
                       /\ JCount(Len(x.ts))
    (* exact points: no gap at corners and edges between faces, hits on the surface *)
    [] x.ev = "gap" -> x.msg = "" /\ \A i \in Idx(x.rays) : JCount(1) /\ GapOk(x, x.rays[i])
    (* middle, bottom, top, back and front of the box *)
    [] x.ev = "named" ->
       /\ x.msg = ""
       /\ Exact(x.o) =>
          LET e == Extent(x.o, Unit)
              fin == \A i \in 1..3 : e.lo[i] > -INF /\ e.hi[i] < INF
              mid == T3(LAMBDA i : 64 * (e.lo[i] + e.hi[i]))
              want == <<mid, [mid EXCEPT ![2] = 128 * e.lo[2]], [mid EXCEPT ![2] = 128 * e.hi[2]],
                        [mid EXCEPT ![3] = 128 * e.lo[3]], [mid EXCEPT ![3] = 128 * e.hi[3]]>>
          IN fin => JCount(1) /\ \A k \in 1..5 : \A i \in 1..3 : Near(x.ps[k][i], want[k][i], 3)
    [] x.ev = "smooth" -> x.msg = "" /\ SmoothOk(x)
    [] x.ev = "aff" -> x.msg = "" /\ AffOk(x) /\ JCount(1)
    [] x.ev = "many" -> x.msg = "" /\ ManyOk(x)
    [] x.ev = "residual" -> x.msg = "" /\ x.r \in 0..20 /\ JCount(1)
    (* two ways of building the same thing answer alike *)
    [] x.ev = "same" -> x.msg = "" /\ x.a = x.b /\ JCount(1)
Spec == JInit /\ [][JNext(Ok(Trace[l]))]_<<l, bad>>
=============================================================================
