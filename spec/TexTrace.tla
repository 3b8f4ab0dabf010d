------------------------------ MODULE TexTrace ------------------------------
(* "tex": one texture evaluated at many points; "near": the nearest-pixel
   texture; "fish": directions through the fisheye map                       *)
EXTENDS TraceBase
T == INSTANCE Texture WITH Texs <- {}, Coords <- {}, tx <- 0, p <- 0
Close(a, b, tol) == \A k \in 1..3 : Near(a[k], b[k], tol)
Dec(e) == {i \in 1..Len(e.p) : T!Decided(e.t, e.p[i])}
TexOk(e) == LET d == Dec(e) IN \A i \in d : Close(e.c[i], T!Eval(e.t, e.p[i]), 3)
NearOk(e) == \A i \in 1..Len(e.p) : T!NearestDecided(e.t, e.p[i][1], e.p[i][2]) => Close(e.c[i], T!NearestPx(e.t, e.p[i][1], e.p[i][2]), 1)
FishOk(e) == \A i \in 1..Len(e.p) : Close(e.c[i], T!Fish(e.p[i][1], e.p[i][2]), 3)
Ok(e) == CASE e.ev = "tex" -> TexOk(e)
           [] e.ev = "near" -> NearOk(e)
           [] e.ev = "fish" -> FishOk(e)
           [] OTHER -> FALSE
Next == JNext(l <= Len(Trace) /\ Ok(Trace[l]))
Spec == JInit /\ [][Next]_<<l, bad>>
=============================================================================
