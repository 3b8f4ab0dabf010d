------------------------------ MODULE OccTrace ------------------------------
(* Judges shadow tests among real objects: the part of a ray up to n times its
   direction crosses surfaces of see-through materials, which divide channel i
   by 2^e[i] each, and of opaque ones, which leave nothing (-1).
   And matte floors lit by point lights at whole distances: every light on the
   seen side adds w * height / distance^3, unless something stands in between
   (blk = 1), however near to the light or to the floor.                      *)
EXTENDS Geo, TraceBase
MatOf(x, id) == CHOOSE m \in {x.mats[i] : i \in 1..Len(x.mats)} : m.id = id
RECURSIVE SumE(_, _)
SumE(cs, i) == IF cs = {} THEN 0 ELSE LET c == CHOOSE c \in cs : TRUE IN c.e[i] + SumE(cs \ {c}, i)
RayOk(x, r) ==
  LET es == [k \in 1..Len(x.objs) |-> Ev(x.objs[k], Unit, r.s, r.d)]
      all == [k |-> "tree", xs |-> es]
      lim == 1024 * r.n
      cr == {c \in Cr(all) : 0 < c.t /\ c.t < lim}
      crits == Crits(all)
  IN IF ~Generic(all) \/ \E i \in 1..Len(crits) : ~Far(crits[i], lim) THEN TRUE
     ELSE /\ JCount(1) /\ r.same
          /\ LET ms == {[t |-> c.t, e |-> MatOf(x, c.m).e, op |-> MatOf(x, c.m).op] : c \in cr} IN
             IF \E m \in ms : m.op = 1 THEN r.e = <<-1, -1, -1>>
             ELSE \A i \in 1..3 : r.e[i] = SumE(ms, i)
RECURSIVE SumL(_, _, _)
SumL(x, n, i) == IF n = 0 THEN 0
                 ELSE LET s == x.ls[n]  h == IF x.up THEN s.o[2] ELSE -s.o[2] IN
                      SumL(x, n - 1, i) + (IF h > 0 /\ s.blk = 0 THEN (1000000 * s.w[i] * h) \div (s.len * s.len * s.len) ELSE 0)
Ok(x) ==
  CASE x.ev = "occ" -> x.msg = "" /\ \A i \in 1..Len(x.rays) : RayOk(x, x.rays[i])
    [] x.ev = "point" -> /\ x.msg = "" /\ JCount(1)
                         /\ \A i \in 1..3 : Near(x.c[i], (x.refl[i] * SumL(x, Len(x.ls), i)) \div 4, 8 + SumL(x, Len(x.ls), i) \div 50000)
Spec == JInit /\ [][JNext(Ok(Trace[l]))]_<<l, bad>>
=============================================================================
