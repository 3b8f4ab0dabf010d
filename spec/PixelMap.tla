------------------------------ MODULE PixelMap ------------------------------
(* Where the samples of a pixel are taken (C03). Lengths in units of
   1/(2*width), so that all pixel centres are integers.                       *)
EXTENDS Integers, Sequences, FiniteSets
CU(w, h, x, y) == 2 * x + 1
CV(w, h, x, y) == w + h - 2 * y - 1

(* spread of the anti-aliasing positions: cnt[i] of n samples in part i of m  *)
Even(cnt, n, slack) == \A i \in 1..Len(cnt) : LET d == cnt[i] * Len(cnt) - n IN -slack * Len(cnt) <= d /\ d <= slack * Len(cnt)

----------------------------------------------------------------------------
CONSTANT MaxDim
VARIABLES w, h
Init == w \in 1..MaxDim /\ h \in 1..MaxDim
Next == UNCHANGED <<w, h>>
Spec == Init /\ [][Next]_<<w, h>>
P == {<<x, y>> : x \in 0..(w - 1), y \in 0..(h - 1)}
Injective == \A p, q \in P : p # q => <<CU(w, h, p[1], p[2]), CV(w, h, p[1], p[2])>> # <<CU(w, h, q[1], q[2]), CV(w, h, q[1], q[2])>>
SamePitch == \A p, q \in P : /\ CU(w, h, q[1], q[2]) - CU(w, h, p[1], p[2]) = 2 * (q[1] - p[1])
                             /\ CV(w, h, q[1], q[2]) - CV(w, h, p[1], p[2]) = -2 * (q[2] - p[2])
Centred == \A p \in P : /\ CU(w, h, p[1], p[2]) + CU(w, h, w - 1 - p[1], p[2]) = 2 * w
                        /\ CV(w, h, p[1], p[2]) + CV(w, h, p[1], h - 1 - p[2]) = 2 * w
InSquare == \A p \in P : 0 < CU(w, h, p[1], p[2]) /\ CU(w, h, p[1], p[2]) < 2 * w
                         /\ (h <= w => 0 < CV(w, h, p[1], p[2]) /\ CV(w, h, p[1], p[2]) < 2 * w)
=============================================================================
