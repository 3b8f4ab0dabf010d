----------------------------- MODULE CameraTrace -----------------------------
(* Replays recorded camera programs: "reset" makes the first camera, "derive"
   another one, "ray" and "lens" observe the rays of any camera made so far. *)
EXTENDS TraceBase
VARIABLE cams
C == INSTANCE Camera WITH Kinds <- {}, Turns <- {}, Moves <- {}, MaxCams <- 0
Close(a, b, tol) == \A k \in 1..3 : Near(a[k], b[k], tol)
(* e.q: the point of the ray nearest to the expected one cannot be computed by
   the driver (it does not know it), so it reports the part of the start
   perpendicular to the ray (1/1000) and the part along it                    *)
Perp(v, d) == LET s == C!Rnd(C!Dot(v, C!MVec(<<<<1000,0,0>>,<<0,1000,0>>,<<0,0,1000>>>>, d)), 1000) IN  \* v in 1/1000, d in 1/10000 -> 1/1000
              <<v[1] - C!Rnd(s * d[1], 10000), v[2] - C!Rnd(s * d[2], 10000), v[3] - C!Rnd(s * d[3], 10000)>>
Along(v, d) == C!Rnd(C!Dot(v, C!MVec(<<<<1000,0,0>>,<<0,1000,0>>,<<0,0,1000>>>>, d)), 1000)
Ray(e) == LET c == cams[e.i]  d == C!Dir(c, e.a, e.b)  q == C!Through(c, e.a, e.b) IN
          /\ e.unit = 1
          /\ Close(e.dir, d, 40)
          /\ IF c.p.k = "iso" THEN Close(e.perp, Perp(q, d), 120) /\ e.along < Along(q, d) - 1000000
             ELSE Close(e.start, q, 2)
(* many rays of one image position through a lens of radius ap: starts (in the
   camera's own axes) on the lens, evenly spread, rays through the focus     *)
Lens(e) == LET c == cams[e.i]  f == C!Through(c, e.a, e.b)  mt == C!T(c.m)
               off == [k \in 1..Len(e.start) |-> C!MVec(mt, C!Minus(e.start[k], C!Mil(c.pos)))]
               r2(k) == LET o == off[k] IN o[1] * o[1] + o[2] * o[2]
               ap == c.p.ap  n == Len(e.start)
               inner == Cardinality({k \in 1..n : 2 * r2(k) < ap * ap})
               quad(sx, sy) == Cardinality({k \in 1..n : off[k][1] * sx > 0 /\ off[k][2] * sy > 0})
               Line(k) == LET g == C!Minus(f, e.start[k])  d == e.dir[k] IN
                          Close(Perp(g, d), <<0, 0, 0>>, 8 + Max2(Abs(g[1]), Max2(Abs(g[2]), Abs(g[3]))) \div 800) /\ C!Dot(C!MVec(<<<<1000,0,0>>,<<0,1000,0>>,<<0,0,1000>>>>, g), d) > 0 IN
           /\ e.unit = 1 /\ n = 1024
           /\ \A k \in 1..n : Near(off[k][3], 0, 4) /\ r2(k) <= (ap + 4) * (ap + 4) /\ Line(k)
           /\ Near(inner, n \div 2, 110)
           /\ \A sx \in {-1, 1}, sy \in {-1, 1} : Near(quad(sx, sy), n \div 4, 110)
Ok(e) == CASE e.ev = "ray" -> e.i \in 1..Len(cams) /\ Ray(e)
           [] e.ev = "lens" -> e.i \in 1..Len(cams) /\ Lens(e)
           [] e.ev = "panic" -> FALSE
           [] OTHER -> TRUE
Step == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ JStep(Ok(e))
           /\ cams' = CASE e.ev = "reset" -> <<C!New(e.p)>>
                        [] e.ev = "derive" -> Append(cams, C!Derive(cams[e.i], e))
                        [] OTHER -> cams
Spec == JInit /\ cams = <<>> /\ [][Step \/ (JDone /\ UNCHANGED cams)]_<<l, bad, cams>>
=============================================================================
