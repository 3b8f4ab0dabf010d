------------------------------ MODULE LampTrace ------------------------------
(* "sample": positions p and intensities i offered for targets t;
   "rays": what a ray from s in direction d meets (c: its colour, in 1/1000);
   "even": many samples for one target.
   A lamp of kind "sun" is observed with its distance as the unit.             *)
EXTENDS TraceBase
T == INSTANCE Lamp WITH Lamps <- {}, Ops <- {}, Points <- {}, Targets <- {}, MaxOps <- 0, lamp <- 0, q <- 0, t <- 0
LampOf(e) == IF e.lamp.k = "sun" THEN T!Sun(e.lamp.w, e.lamp.b, e.lamp.yaw, e.lamp.pitch) ELSE e.lamp
IntOk(lp, x, k) == LET c == TLCEval(T!CosAt(lp, x.p, x.t))
                       lo == TLCEval(T!IntensityC(lp, x.p, x.t, k, c - 20))
                       hi == TLCEval(T!IntensityC(lp, x.p, x.t, k, c + 20))
                   IN x.i[k] >= lo - lo \div 80 - 3 /\ x.i[k] <= hi + hi \div 80 + 3
(* the power of a scaled point lamp is not said; it is the same in all directions *)
Ratio(lp, x, y, k) == LET a == T!Intensity(lp, x.p, x.t, k)  b == T!Intensity(lp, y.p, y.t, k)
                      IN T!Near(T!MulDiv(x.i[k], 1000, T!MulDiv(a, 1, 1) + 1), T!MulDiv(y.i[k], 1000, b + 1), 20, 20)
SampleOk(e) == LET lp == TLCEval(LampOf(e)) IN
  /\ \A n \in 1..Len(e.s) : T!OnShape(lp, e.s[n].p, 25)
  /\ IF lp.k = "point" /\ T!Scaled(lp) # 10000
     THEN \A n \in 1..Len(e.s) : \A k \in 1..3 : (e.s[n].i[k] > 0) = (lp.b[k] > 0) /\ Ratio(lp, e.s[1], e.s[n], k)
     ELSE \A n \in 1..Len(e.s) : \A k \in 1..3 : IntOk(lp, e.s[n], k)
RaysOk(e) == LET lp == TLCEval(LampOf(e)) IN
  \A n \in 1..Len(e.r) : LET x == e.r[n]  w == TLCEval(T!See(lp, x.s, x.d)) IN
     CASE w[1] = "none" -> x.seen = 0
       [] w[1] = "lamp" -> IF w[2] THEN x.seen = 1 /\ \A k \in 1..3 : Near(x.c[k], 250 * lp.b[k], 2 + lp.b[k] \div 8)
                           ELSE x.c = <<0, 0, 0>>
       [] OTHER -> TRUE
(* cells of equal area *)
Cell(lp, x) == IF lp.k = "rect"
               THEN LET ix == ((x[1] + 50 * lp.w) * 4) \div (100 * lp.w)  iz == ((x[3] + 50 * lp.h) * 4) \div (100 * lp.h)
                    IN 4 * Max2(0, Min2(3, ix)) + Max2(0, Min2(3, iz))
               ELSE LET X == x[1] \div 10  Z == x[3] \div 10  R == 5 * lp.w IN
                    (IF X < 0 THEN 4 ELSE 0) + (IF Z < 0 THEN 2 ELSE 0) + (IF 2 * (X * X + Z * Z) < R * R THEN 1 ELSE 0)
Cells(lp) == IF lp.k = "rect" THEN 16 ELSE 8
RECURSIVE Count(_, _, _, _)
Count(lp, ps, n, acc) == IF n > Len(ps) THEN acc
                         ELSE LET c == TLCEval(Cell(lp, TLCEval(T!Local(lp, ps[n])))) + 1 IN Count(lp, ps, n + 1, TLCEval([acc EXCEPT ![c] = @ + 1]))
EvenOk(e) == LET lp == TLCEval(LampOf(e))
                 cnt == TLCEval(Count(lp, e.ps, 1, TLCEval([c \in 1..Cells(lp) |-> 0])))
             IN \A c \in 1..Cells(lp) : Near(cnt[c], Len(e.ps) \div Cells(lp), 12 + Len(e.ps) \div (Cells(lp) * 8))
Ok(e) == CASE e.ev = "sample" -> SampleOk(e)
           [] e.ev = "rays" -> RaysOk(e)
           [] e.ev = "even" -> EvenOk(e)
           [] OTHER -> FALSE
Next == JNext(l <= Len(Trace) /\ Ok(Trace[l]))
Spec == JInit /\ [][Next]_<<l, bad>>
=============================================================================
