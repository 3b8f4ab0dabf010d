----------------------------- MODULE LightTrace -----------------------------
(* Judges brightnesses seen in real layered scenes, and single reflections and
   refractions at arbitrary angles.                                           *)
EXTENDS Light, TraceBase
TOL == 300
SeeOk(sc, r) == LET v == See(sc, r) IN
  IF ~v[4] THEN TRUE ELSE JCount(1) /\ \A i \in 1..3 : Near(r.c[i], v[i], TOL)
(* vectors in 1/10000 *)
D3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
K == 10000
Mir(d, n, r) == LET dn == D3(d, n) \div K IN \A i \in 1..3 : Near(r[i], d[i] - (2 * dn * n[i]) \div K, 6)
UnitLen(r) == Near(D3(r, r), K * K, 8 * K)
AbsF(x) == IF x < 0 THEN -x ELSE x
Frac(a, b) == (K * (AbsF(a) \div 100)) \div (AbsF(b) \div 100)
(* refraction from index a to b (1/100): tangential parts in proportion *)
Snell(d, n, t, a, b) ==
  LET dn == D3(d, n) \div K  tn == D3(t, n) \div K IN
  /\ UnitLen(t)
  /\ dn * tn > 0
  /\ \A i \in 1..3 : Near(b * (t[i] - (tn * n[i]) \div K), a * (d[i] - (dn * n[i]) \div K), 16 * (a + b))
Sq(x) == (x * x) \div K
FresnelOk(ci, ct, a, b, R) ==
  LET rp == Sq(Frac(a * ci - b * ct, a * ci + b * ct))
      rs == Sq(Frac(a * ct - b * ci, a * ct + b * ci))
  IN Near(R, (rp + rs) \div 2, 60)
Opt(x) ==
  LET dn == D3(x.d, x.n) \div K
      a == IF x.k = "fres" \/ dn < 0 THEN x.n1 ELSE x.n2
      b == IF x.k = "fres" \/ dn < 0 THEN x.n2 ELSE x.n1
      ci == AbsF(dn)
      s2 == IF Sq(ci) > K THEN 0 ELSE K - Sq(ci)        \* sin^2
      st == ((((s2 * a) \div b) * a) \div b)            \* sin^2 behind
  IN /\ x.msg = ""
     /\ CASE x.k = "refl" -> x.nr = 1 /\ x.nt = 0 /\ Mir(x.d, x.n, x.rd)
          [] st > K + 100 /\ x.k = "refr" -> x.nr = 1 /\ x.nt = 0 /\ Mir(x.d, x.n, x.rd) /\ Near(x.R, K, 4)
          [] st > K + 100 /\ x.k = "fres" -> x.nr = 1 /\ Mir(x.d, x.n, x.rd) /\ Near(x.R, K, 4) /\ Near(x.T, 0, 4)
          [] st >= K - 300 -> TRUE
          [] OTHER -> LET ct == x.ct IN
               /\ Near(Sq(ct), K - st, 40 + (8 * a * a) \div (b * b))
               /\ x.nr = 1 /\ Mir(x.d, x.n, x.rd)
               /\ x.k = "refr" => x.nt = 1 /\ Snell(x.d, x.n, x.td, a, b)
               /\ Near(x.R + x.T, K, 4)
               /\ FresnelOk(ci, ct, a, b, x.R)
Ok(x) ==
  CASE x.ev = "see" -> x.msg = "" /\ \A i \in 1..Len(x.rays) : SeeOk(x.sc, x.rays[i])
    [] x.ev = "opt" -> JCount(1) /\ Opt(x)
    (* directions after a diffuse bounce: on the seen side, of unit length, cos^2 uniform *)
    [] x.ev = "diffuse" -> /\ JCount(1) /\ x.msg = "" /\ x.wrong = 0 /\ x.n > 0
                           /\ \A i \in 1..Len(x.q) : Near(Len(x.q) * x.q[i], x.n, x.n \div 4)
                           /\ \A i \in 1..3 : Near(x.mean[i], (2 * x.nrm[i]) \div 3, 300)
Spec == JInit /\ [][JNext(Ok(Trace[l]))]_<<l, bad>>
=============================================================================
