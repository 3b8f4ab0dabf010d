------------------------------- MODULE Texture -------------------------------
(* Textures as trees. Coordinates are in 1/256, colours in 1/10000.
   img   : [rows (bottom row first, bytes), lin = 1: height map, else sRGB]
   col   : constant c;  pt : the point itself;  pt2 : without its third part
   pan   : [t, du, dv];  scale : [t, n, d (factors n/d per direction)]
   check : [a, b, pu, pv (repetitions per unit, doubled)]
   grid  : [a, b, wd (1/256), pu, pv];  fish : [t]                           *)
EXTENDS Tables, TLC
U == 256
Rnd(x, d) == IF x >= 0 THEN (x + (d \div 2)) \div d ELSE -((-x + (d \div 2)) \div d)
Mod1(x) == x % U
Chan(t, v) == IF t.lin = 1 THEN Rnd(v * 10000, 255) ELSE SrgbTab[v + 1]
Wd(t) == Len(t.rows[1])
Ht(t) == Len(t.rows)
Px(t, i, j) == LET c == t.rows[(j % Ht(t)) + 1][(i % Wd(t)) + 1] IN <<Chan(t, c[1]), Chan(t, c[2]), Chan(t, c[3])>>
Mix(c00, c10, c01, c11, x, y) ==
  [k \in 1..3 |-> Rnd(c00[k] * (U - x) * (U - y) + c10[k] * x * (U - y) + c01[k] * (U - x) * y + c11[k] * x * y, U * U)]
Image(t, u, v) ==
  LET X == Mod1(u) * (Wd(t) - 1)  Y == Mod1(v) * (Ht(t) - 1)  i == X \div U  j == Y \div U IN
  Mix(Px(t, i, j), Px(t, i + 1, j), Px(t, i, j + 1), Px(t, i + 1, j + 1), X % U, Y % U)
Even(n) == n % 2 = 0
Square(x, p2) == (x * p2) \div U                \* number of the square of size 1/p2
OnLine(y, p2, wd) == LET f == (y * p2) % U IN f < wd * p2 \/ f > U - wd * p2
RECURSIVE Eval(_, _)
Eval(t, p) ==
  CASE t.k = "img" -> Image(t, p[1], p[2])
    [] t.k = "col" -> t.c
    [] t.k = "pt" -> [k \in 1..3 |-> Rnd(p[k] * 10000, U)]
    [] t.k = "pt2" -> <<Rnd(p[1] * 10000, U), Rnd(p[2] * 10000, U), 0>>
    [] t.k = "pan" -> Eval(t.t, <<p[1] - t.du, p[2] - t.dv, 0>>)
    [] t.k = "scale" -> Eval(t.t, <<(p[1] * t.d[1]) \div t.n[1], (p[2] * t.d[2]) \div t.n[2], 0>>)
    [] t.k = "check" -> Eval(IF Even(Square(p[1], t.pu) + Square(p[2], t.pv)) THEN t.a ELSE t.b, <<p[1], p[2], 0>>)
    [] t.k = "grid" -> Eval(IF OnLine(p[1], t.pu, t.wd) \/ OnLine(p[2], t.pv, t.wd) THEN t.b ELSE t.a, <<p[1], p[2], 0>>)
(* a point that lies exactly on the border of a square or line is not decided *)
RECURSIVE Decided(_, _)
Decided(t, p) ==
  CASE t.k = "check" -> /\ (p[1] * t.pu) % U # 0 /\ (p[2] * t.pv) % U # 0
                        /\ Decided(IF Even(Square(p[1], t.pu) + Square(p[2], t.pv)) THEN t.a ELSE t.b, <<p[1], p[2], 0>>)
    [] t.k = "grid" -> /\ \A g \in {<<p[1], t.pu>>, <<p[2], t.pv>>} : LET f == (g[1] * g[2]) % U IN f # t.wd * g[2] /\ f # U - t.wd * g[2] /\ (t.wd # 0 \/ f # 0)
                       /\ Decided(IF OnLine(p[1], t.pu, t.wd) \/ OnLine(p[2], t.pv, t.wd) THEN t.b ELSE t.a, <<p[1], p[2], 0>>)
    [] t.k = "pan" -> Decided(t.t, <<p[1] - t.du, p[2] - t.dv, 0>>)
    [] t.k = "scale" -> Decided(t.t, <<(p[1] * t.d[1]) \div t.n[1], (p[2] * t.d[2]) \div t.n[2], 0>>)
    [] OTHER -> TRUE
(* the fisheye map: direction with angle th (15 degrees) from the vertical and
   azimuth ph (15 degrees, from x to z): distance from the centre grows with th *)
S15 == <<0, 2588, 5000, 7071, 8660, 9659, 10000>>
RECURSIVE Sin(_)
Sin(a) == IF a < 0 THEN -Sin(-a) ELSE IF a > 12 THEN -Sin(a - 12) ELSE IF a > 6 THEN S15[13 - a] ELSE S15[a + 1]
Fish(th, ph) == <<5000 + Rnd(th * Sin(ph + 6), 12), 5000 + Rnd(th * Sin(ph), 12), 0>>
(* the nearest pixel, inside the unit square *)
NearestPx(t, u, v) == Px(t, (2 * u * (Wd(t) - 1) + U) \div (2 * U), (2 * v * (Ht(t) - 1) + U) \div (2 * U))
NearestDecided(t, u, v) == (2 * u * (Wd(t) - 1)) % (2 * U) # U /\ (2 * v * (Ht(t) - 1)) % (2 * U) # U

-----------------------------------------------------------------------------
(* design: laws, for all points of a range *)
CONSTANTS Texs, Coords
VARIABLES tx, p
TInit == tx \in Texs /\ p \in Coords \X Coords
TSpec == TInit /\ [][FALSE /\ UNCHANGED <<tx, p>>]_<<tx, p>>
At(t, u, v) == Eval(t, <<u, v, 0>>)
Periodic == tx.k = "img" => /\ At(tx, p[1] + U, p[2]) = At(tx, p[1], p[2]) /\ At(tx, p[1], p[2] - U) = At(tx, p[1], p[2])
Between == tx.k = "img" => \A k \in 1..3 : LET v == At(tx, p[1], p[2])[k]
                                               all == {Px(tx, i, j)[k] : i \in 0..(Wd(tx) - 1), j \in 0..(Ht(tx) - 1)} IN
                              (\E z \in all : z <= v) /\ (\E z \in all : z >= v)
OnGrid == (tx.k = "img" /\ Wd(tx) > 1 /\ Ht(tx) > 1) => \A i \in 0..(Wd(tx) - 1), j \in 0..(Ht(tx) - 1) :
             /\ (i * U) % (Wd(tx) - 1) = 0 /\ (j * U) % (Ht(tx) - 1) = 0 /\ i < Wd(tx) - 1 /\ j < Ht(tx) - 1
             => At(tx, (i * U) \div (Wd(tx) - 1), (j * U) \div (Ht(tx) - 1)) = Px(tx, i, j)
Pans == LET a == [k |-> "pan", t |-> tx, du |-> p[1], dv |-> p[2]]
            b == [k |-> "pan", t |-> a, du |-> -p[1], dv |-> -p[2]] IN
        At(b, 3, 77) = At(tx, 3, 77) /\ At(a, p[1], p[2]) = At(tx, 0, 0)
Alternate == \* checkers repeat after two squares and change after one
  tx.k = "check" /\ U % tx.pu = 0 =>
     LET c == [tx EXCEPT !.a = [k |-> "col", c |-> <<1, 1, 1>>], !.b = [k |-> "col", c |-> <<2, 2, 2>>]]  s == U \div tx.pu IN
     At(c, p[1] + 2 * s, p[2]) = At(c, p[1], p[2]) /\ At(c, p[1] - s, p[2]) # At(c, p[1], p[2])
=============================================================================
