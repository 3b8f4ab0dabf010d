----------------------------- MODULE HaltonTrace -----------------------------
EXTENDS TraceBase
H == INSTANCE Halton WITH Bases <- {}, MaxK <- 0, Blocks <- 0, Lim <- 0, b <- 0, k <- 0, m <- 0
(* elem: element i of base b times b^k *)
Elem(e) == e.x = H!Elem(e.b, e.i, e.k)
(* block: b^k consecutive aligned elements, times b^k, rounded down *)
Block(e) == {e.c[j] : j \in 1..Len(e.c)} = 0..(H!Pow(e.b, e.k) - 1)
(* shifted sequence of a pixel: cells (value*b^k) of the aligned block relative
   to the first element: in [0,1) and cyclically even: sorted values differ by
   exactly one cell. e.c: floor((value - shift mod 1) * b^k), e.lo, e.hi: the
   range of the values in millionths                                          *)
Range(e) == e.lo >= 0 /\ e.hi < 1000000
Shift(e) == Range(e) /\ Block(e)
(* even: counts of N points of a fine grid (or sequence) in equal-area cells *)
Even(e) == /\ e.out = 0
           /\ \A j \in 1..Len(e.cnt) : Abs(e.cnt[j] * Len(e.cnt) - e.n) <= e.slack * Len(e.cnt)
(* disk: x^2+y^2 <= 1, in millionths *)
Disk(e) == e.r2 >= -1 /\ e.r2 <= 1000001
(* hemisphere: unit vector on the normal's side; lengths and cosines in millionths *)
Hemi(e) == Near(e.len2, 1000000, 3) /\ e.cos >= -1
Ok(e) == CASE e.ev = "elem" -> Elem(e) [] e.ev = "block" -> Block(e) [] e.ev = "range" -> Range(e) [] e.ev = "shift" -> Shift(e)
           [] e.ev = "even" -> Even(e) [] e.ev = "disk" -> Disk(e) [] e.ev = "hemi" -> Hemi(e)
Spec == JInit /\ [][JNext(Ok(Trace[l]))]_<<l, bad>>
=============================================================================
