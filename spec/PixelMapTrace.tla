---------------------------- MODULE PixelMapTrace ----------------------------
EXTENDS TraceBase
M == INSTANCE PixelMap WITH MaxDim <- 0, w <- 0, h <- 0
(* line: for each pixel (row by row) the position of one pass, in units of
   1/(2*width), rounded (an undefined or non-integer position is out of range) *)
Plain(e) == /\ Len(e.u) = e.w * e.h
            /\ \A i \in 1..Len(e.u) : LET x == (i - 1) % e.w  y == (i - 1) \div e.w IN
                 /\ e.u[i] = M!CU(e.w, e.h, x, y)
                 /\ e.v[i] = M!CV(e.w, e.h, x, y)
(* e.du, e.dv: offsets from the centre of one pixel's n samples, in units of
   1/min(w,h)/1000000; e.id: interned exact positions                         *)
Part(d, m) == (((d + 500000) * m) \div 1000000) + 1
Clamp(k, m) == IF k < 1 THEN 1 ELSE IF k > m THEN m ELSE k
Counts(ds, m) == [k \in 1..m |-> Cardinality({i \in 1..Len(ds) : Clamp(Part(ds[i], m), m) = k})]
Quad(e) == [k \in 1..4 |-> Cardinality({i \in 1..Len(e.du) : (IF e.du[i] < 0 THEN 0 ELSE 1) + (IF e.dv[i] < 0 THEN 0 ELSE 2) = k - 1})]
AA(e) == /\ Len(e.du) = e.n
         /\ \A i \in 1..e.n : Abs(e.du[i]) <= 500001 /\ Abs(e.dv[i]) <= 500001
         /\ Cardinality({e.id[i] : i \in 1..e.n}) = e.n
         /\ e.n >= 60 => \A m \in {2, 4, 8} : M!Even(Counts(e.du, m), e.n, 8) /\ M!Even(Counts(e.dv, m), e.n, 8)
         /\ e.n >= 60 => M!Even(Quad(e), e.n, 14)
(* the mapping function itself, at integer and half-integer (border) indices:
   x2, y2 = twice the index *)
Map(e) == e.u = 1 + e.x2 /\ e.v = e.w + e.h - e.y2 - 1
Ok(e) == CASE e.ev = "plain" -> Plain(e) [] e.ev = "aa" -> AA(e) [] e.ev = "map" -> Map(e)
Spec == JInit /\ [][JNext(Ok(Trace[l]))]_<<l, bad>>
=============================================================================
