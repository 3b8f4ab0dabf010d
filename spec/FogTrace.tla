------------------------------ MODULE FogTrace ------------------------------
(* Judges brightnesses of rays through real media, and the points at which lit
   fog asked for light.                                                       *)
EXTENDS Fog, TraceBase
TOL == 60
(* "see": first surface of colour base (after reflection, if it is a mirror),
   media ms, lights; c = observed brightness in 1/10000 *)
See(e) == LET v == Through(e.ms, e.r, e.lights, e.base) IN
          /\ e.msg = ""
          /\ \A i \in 1..3 : Near(e.c[i], v[i], TOL + v[i] \div 500)
          \* light is asked for only at points of the ray below the ceiling
          /\ \A j \in 1..Len(e.pts) : LET m == e.ms[e.pts[j][1]]  s == Segment(e.r, m.h) IN
               e.pts[j][2] >= s[1] - 40 /\ e.pts[j][2] <= s[2] + 40
(* "dist": many points asked for in one fog: in equal parts of the light that
   reaches the camera, equally many points *)
Dist(e) == LET s == Segment(e.r, e.h)  n == Len(e.t)
               T0 == Trans(e.k, IF s[2] = INF THEN INF ELSE s[2] - s[1])
               U(i) == (1000 * (10000 - Trans(e.k, Mx(0, e.t[i] - s[1])))) \div (10000 - T0)
               us == [i \in 1..n |-> U(i)]
               cnt(q) == Cardinality({i \in 1..n : us[i] >= 250 * (q - 1) /\ us[i] < 250 * q})
           IN /\ n = 256
              /\ T0 < 9900 => \A q \in 1..4 : Near(cnt(q), n \div 4, 16)
Ok(e) == CASE e.ev = "see" -> JCount(1) /\ See(e) [] e.ev = "dist" -> JCount(1) /\ Dist(e)
Spec == JInit /\ [][JNext(Ok(Trace[l]))]_<<l, bad>>
=============================================================================
