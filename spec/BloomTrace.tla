------------------------------ MODULE BloomTrace ------------------------------
(* "conv": a real convolution of integer images by an integer kernel, exact.
   "post": real effects one after the other, in 10^-4.                       *)
EXTENDS TraceBase
B == INSTANCE Bloom WITH Values <- {}, Kernels <- {}, Thrs <- {}, W <- 0, H <- 0, D <- 0, img <- 0, kern <- 0, thr <- 0, todo <- 0, out <- 0
RECURSIVE Effects(_, _, _)
Effects(i, es, k) == IF k > Len(es) THEN i ELSE Effects(TLCEval(B!Effect(i, es[k])), es, k + 1)
CloseImg(a, b, o, tol) == \A y \in 1..Len(b) : \A x \in 1..Len(b[y]) : \A c \in 1..3 :
     Near(a[y][x][c], b[y][x][c], tol + Abs(b[y][x][c] - o[y][x][c]) \div 60)
Ok(e) == CASE e.ev = "conv" -> e.same = 1 /\ e.out = TLCEval(B!Conv(e.dst, e.img, e.kern, e.gain, e.thr, 1))
           [] e.ev = "post" -> e.same = 1 /\ (IF e.fx = <<>> THEN e.out = e.img ELSE LET r == TLCEval(Effects(e.img, e.fx, 1)) IN CloseImg(e.out, r, e.img, 25))
           [] OTHER -> FALSE
Next == JNext(l <= Len(Trace) /\ Ok(Trace[l]))
Spec == JInit /\ [][Next]_<<l, bad>>
=============================================================================
