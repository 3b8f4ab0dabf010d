-------------------------------- MODULE Bloom --------------------------------
(* Bloom: every source pixel brighter than the threshold spreads its excess
   over its surroundings, weighted by a kernel. Images are sequences of rows of
   <<r, g, b>>.                                                              *)
EXTENDS Tables, FiniteSets, TLC
Wd(img) == IF Len(img) = 0 THEN 0 ELSE Len(img[1])
Ht(img) == Len(img)
Pos(x) == IF x > 0 THEN x ELSE 0
Mx(a, b) == IF a > b THEN a ELSE b
Rnd(x, d) == IF x >= 0 THEN (x + (d \div 2)) \div d ELSE -((-x + (d \div 2)) \div d)
Excess(c, thr) == <<Pos(c[1] - thr), Pos(c[2] - thr), Pos(c[3] - thr)>>
(* pixels (x, y) with any excess *)
Sources(img, thr) == {p \in (1..Wd(img)) \X (1..Ht(img)) : Excess(img[p[2]][p[1]], thr) # <<0, 0, 0>>}
(* the kernel is a sequence of rows; its weight at offset (dx, dy) from its
   centre, 0 outside it                                                      *)
Weight(k, dx, dy) == LET x == dx + (Wd(k) \div 2) + 1  y == dy + (Ht(k) \div 2) + 1 IN
                     IF x \in 1..Wd(k) /\ y \in 1..Ht(k) THEN k[y][x] ELSE <<0, 0, 0>>
(* what is added to pixel (x, y): products divided by den *)
RECURSIVE AddUp(_, _, _, _, _, _, _, _, _)
AddUp(S, img, k, gain, thr, den, x, y, acc) ==
  IF S = {} THEN acc
  ELSE LET p == CHOOSE p \in S : TRUE  e == Excess(img[p[2]][p[1]], thr)  w == Weight(k, x - p[1], y - p[2]) IN
       AddUp(S \ {p}, img, k, gain, thr, den, x, y,
             TLCEval(<<acc[1] + Rnd(e[1] * gain * w[1], den), acc[2] + Rnd(e[2] * gain * w[2], den), acc[3] + Rnd(e[3] * gain * w[3], den)>>))
Added(img, src, k, gain, thr, den, x, y) == AddUp(src, img, k, gain, thr, den, x, y, <<0, 0, 0>>)
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Conv(dst, img, k, gain, thr, den) ==
  LET src == TLCEval(Sources(img, thr)) IN
  [y \in 1..Ht(img) |-> TLCEval([x \in 1..Wd(img) |-> Add3(dst[y][x], Added(img, src, k, gain, thr, den, x, y))])]

-----------------------------------------------------------------------------
(* the three kernels, in 10^-6, for a width of n/d pixels *)
ISqrt(x) ==
  LET RECURSIVE F(_, _)
      F(lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN F(m, hi) ELSE F(lo, m)
  IN F(0, 46341)
Lookup(tab, i, f, den) ==     \* at position i + f/den, interpolated
  IF i + 2 > Len(tab) THEN tab[Len(tab)]
  ELSE tab[i + 1] + Rnd((tab[i + 2] - tab[i + 1]) * f, den)
Gauss(r2, n, d) ==            \* exp(-r2 d^2/n^2)
  LET q == r2 * d * d * 32 IN Lookup(ExpTab, q \div (n * n), q % (n * n), n * n)
Airy(r2, n, d, num, den) ==   \* r = sqrt(r2) d/n num/den, in 1/6400
  LET r == (ISqrt(r2 * 10000) * 64 * d * num) \div (n * den) IN Lookup(AiryTab, r \div 100, r % 100, 100)
Square(m, f(_, _)) == [y \in 1..(2 * m + 1) |-> TLCEval([x \in 1..(2 * m + 1) |-> f(x - m - 1, y - m - 1)])]
GaussKernel(n, d) == LET f(x, y) == LET g == Gauss(x * x + y * y, n, d) IN <<g, g, g>> IN Square(((5 * n) \div d) + 1, f)
AiryKernel(n, d) ==
  LET f(x, y) == LET r2 == x * x + y * y IN <<Airy(r2, n, d, 5, 7), Airy(r2, n, d, 1, 1), Airy(r2, n, d, 10, 9)>> IN Square(((8 * n) \div d) + 1, f)
StarKernel(n, d) ==
  LET p == n \div d
      f(x, y) == LET ax == IF x < 0 THEN -x ELSE x  ay == IF y < 0 THEN -y ELSE y
                     i == Mx(ax, ay)
                     v == IF i < 2 \/ i > p - 2 \/ (ax # 0 /\ ay # 0 /\ ax # ay) THEN 0
                          ELSE LET u == ((p - i) * (p - i) * 10000) \div (p * p) IN IF ax = ay THEN (u * 7071) \div 100 ELSE u * 100 IN <<v, v, v>> IN Square(p, f)
RECURSIVE RowSum(_, _)
RowSum(row, i) == IF i > Len(row) THEN 0 ELSE ((row[i][1] + row[i][2] + row[i][3]) \div 3) + RowSum(row, i + 1)
RECURSIVE KSum(_, _)
KSum(k, i) == IF i > Len(k) THEN 0 ELSE RowSum(k[i], 1) + KSum(k, i + 1)
(* normalised: in 10^-4 of the total; a kernel of total zero stays zero *)
Normed(k) == LET s == KSum(k, 1) \div 1000 IN
             [y \in 1..Len(k) |-> TLCEval([x \in 1..Len(k[y]) |-> IF s = 0 THEN <<0, 0, 0>> ELSE
               <<Rnd(k[y][x][1] * 10, s), Rnd(k[y][x][2] * 10, s), Rnd(k[y][x][3] * 10, s)>>])]
(* effects on an image in 10^-4: one effect [k, n, d, amp, thr], thr in 10^-4 *)
KernelOf(e) == TLCEval(CASE e.k = "gauss" -> GaussKernel(e.n, e.d) [] e.k = "airy" -> AiryKernel(e.n, e.d) [] e.k = "star" -> StarKernel(e.n, e.d))
Effect(img, e) == LET k == KernelOf(e)  m == TLCEval(Normed(k)) IN Conv(img, img, m, e.amp, e.thr, 10000)

-----------------------------------------------------------------------------
(* design: source pixels handled one after the other, in any order, adding to
   the result, for all small images                                          *)
CONSTANTS Values, Kernels, Thrs, W, H, D
VARIABLES img, kern, thr, todo, out
Pix == (1..W) \X (1..H)
Zero == [y \in 1..H |-> [x \in 1..W |-> <<0, 0, 0>>]]
DInit == /\ img \in [1..H -> [1..W -> Values]] /\ kern \in Kernels /\ thr \in Thrs
         /\ todo = Pix /\ out = Zero
DStep == \E p \in todo :
   /\ todo' = todo \ {p}
   /\ out' = LET e == Excess(img[p[2]][p[1]], thr) IN
       [y \in 1..H |-> [x \in 1..W |-> LET w == Weight(kern, x - p[1], y - p[2]) IN Add3(out[y][x], <<e[1] * w[1], e[2] * w[2], e[3] * w[3]>>)]]
   /\ UNCHANGED <<img, kern, thr>>
DSpec == DInit /\ [][DStep]_<<img, kern, thr, todo, out>>
SameResult == todo = {} => out = Conv(Zero, img, kern, 1, thr, 1)
Total(i, ch) == LET RECURSIVE F(_, _)
                    F(x, y) == IF y > H THEN 0 ELSE IF x > W THEN F(1, y + 1) ELSE i[y][x][ch] + F(x + 1, y) IN F(1, 1)
Conserved == \* never more than the excess times the kernel's total
  todo = {} => LET ex == [y \in 1..H |-> [x \in 1..W |-> Excess(img[y][x], thr)]]
                   kt == LET RECURSIVE G(_, _)
                             G(x, y) == IF y > Len(kern) THEN 0 ELSE IF x > Len(kern[y]) THEN G(1, y + 1) ELSE kern[y][x][1] + G(x + 1, y) IN G(1, 1) IN
               Total(out, 1) <= Total(ex, 1) * kt
Dark == todo = {} /\ Sources(img, thr) = {} => out = Zero
=============================================================================
