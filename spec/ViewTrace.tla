------------------------------ MODULE ViewTrace ------------------------------
(* Replays programs on real specifications: "reset" gives one, "apply" derives
   one through a view, "init" fills in defaults, the others observe.         *)
EXTENDS TraceBase
VARIABLE specs
V == INSTANCE View WITH Kinds <- {}, Turns <- {}, Moves <- {}, MaxCams <- 0, Specs <- {}, ViewSet <- {}, MaxSpecs <- 0, cams <- <<>>
Close(a, b, tol) == \A k \in 1..3 : Near(a[k], b[k], tol)
K3 == <<<<1000, 0, 0>>, <<0, 1000, 0>>, <<0, 0, 1000>>>>
Perp(v, d) == LET s == V!Rnd(V!Dot(v, V!MVec(K3, d)), 1000) IN
              <<v[1] - V!Rnd(s * d[1], 10000), v[2] - V!Rnd(s * d[2], 10000), v[3] - V!Rnd(s * d[3], 10000)>>
Ray(e) == LET c == specs[e.i].cam[1]  d == V!Dir(c, e.a, e.b)  q == V!Through(c, e.a, e.b) IN
          /\ e.unit = 1 /\ Close(e.dir, d, 40)
          /\ IF c.p.k = "iso" THEN Close(e.perp, Perp(q, d), 120) ELSE Close(e.start, q, 3)
Ok(e) == IF e.ev \in {"reset", "apply", "init"} THEN TRUE
         ELSE IF e.ev \notin {"settings", "ray", "look", "pixel"} THEN FALSE
         ELSE LET s == specs[e.i] IN
         CASE e.ev = "settings" -> /\ e.w = s.w /\ e.h = s.h /\ e.np = s.np /\ e.rec = s.rec /\ e.md = s.md
                                   /\ e.n = s.n + s.bd /\ e.cam = Len(s.cam) /\ e.rest = 1
           [] e.ev = "ray" -> s.cam # <<>> /\ Ray(e)
           [] e.ev = "look" -> Close(e.c, V!Look(s, e.j), 12)
           [] e.ev = "pixel" -> Close(e.c, V!Pixel(s, e.a, e.b), 40)
Step == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ JStep(Ok(e))
           /\ specs' = CASE e.ev = "reset" -> <<e.s>>
                         [] e.ev = "apply" -> Append(specs, V!Apply(e.v, specs[e.i]))
                         [] e.ev = "init" -> [specs EXCEPT ![e.i] = V!Default(@)]
                         [] OTHER -> specs
Spec == JInit /\ specs = <<>> /\ [][Step \/ (JDone /\ UNCHANGED specs)]_<<l, bad, specs>>
=============================================================================
