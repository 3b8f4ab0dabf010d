------------------------------ MODULE GeoLaws ------------------------------
(* The geometry specification checked against itself on a small lattice: for
   every combination of solids and every ray in general position
    - a combination is entered and left exactly at its surfaces,
    - normals point outward (against the ray where it enters),
    - the inside of a point of the ray is the inside of the combination there,
    - turning, moving and scaling object and ray together changes nothing,
    - surfaces lie in the extent.                                             *)
EXTENDS Geo
CONSTANT K
VARIABLES o, ray
Pal(m) == {[k |-> "box", lo |-> <<-8, -8, -8>>, hi |-> <<8, 4, 8>>, m |-> m],
           [k |-> "sph", c |-> <<4, 0, 0>>, r |-> 8, m |-> m],
           [k |-> "cyl", dir |-> 3, c |-> <<0, 4, -4>>, r |-> 6, h |-> 10, m |-> m],
           [k |-> "not", x |-> [k |-> "sph", c |-> <<-4, 0, 4>>, r |-> 6, m |-> m]]}
Objs == {[k |-> b, x |-> x, y |-> y] : b \in {"and", "or", "dif"}, x \in Pal(1), y \in Pal(2)}
        \cup {[k |-> "and", x |-> [k |-> b, x |-> x, y |-> y], y |-> z] : b \in {"or", "dif"}, x \in Pal(1), y \in Pal(2), z \in Pal(3)}
Rays == {<<<<s, u, v>>, d>> : s \in {-24, 0, 24}, u \in {-5, 1, 3}, v \in {-3, 2}, d \in {<<1, 0, 0>>, <<-1, 0, 0>>, <<2, 1, 1>>, <<-3, 1, 2>>, <<-2, -1, 0>>}}
Init == o \in Objs /\ ray = <<>>
Next == ray = <<>> /\ ray' \in {r \in Rays : K = 1 \/ (r[1][1] = -24 /\ r[1][3] = 2)} /\ UNCHANGED o
Spec == Init /\ [][Next]_<<o, ray>>
S == ray[1]
D == ray[2]
(* an open cylinder has an inside but no end surfaces: leave out rays through them *)
RECURSIVE Closed(_)
Closed(x) == CASE x.k = "leaf" -> \A t \in {x.a, x.b} : x.a < x.b /\ AbsV(t) < BIG => \E c \in x.cr : c.t = t
               [] x.k = "not" -> Closed(x.x)
               [] OTHER -> Closed(x.x) /\ Closed(x.y)
Boundary(e) == Closed(e) =>
   LET ts == {Crits(e)[i] : i \in 1..Len(Crits(e))} IN
   /\ \A c \in Cr(e) : In(e, c.t - 96) # In(e, c.t + 96)
   /\ \A t \in ts : In(e, t - 96) # In(e, t + 96) => \E c \in Cr(e) : c.t = t
Outward(e) == Closed(e) => \A c \in Cr(e) : (Dot(c.N, D) < 0) = In(e, c.t + 96)
PointInside(e) == \A n \in 1..40 :
   LET p == Add(S, Mul(n, D)) IN PGen(o, Unit, p) => (InP(o, Unit, p) = In(e, 1024 * n))
Moves == {QT(1), QT(2), QT(3), [Unit EXCEPT !.off = <<8, -16, 24>>], Shrunk(2, 1, <<8, 0, 0>>), Comp(QT(2), Shrunk(1, 2, <<0, 8, 0>>))}
Covariant(e) == \A F \in Moves :
   LET S2 == Pt(F, S)  D2 == LET d == Lin(F, Mul(2, D)) IN Mul(F.sn, T3(LAMBDA i : d[i] \div F.sd))
       f == Ev(o, F, S2, D2) IN
   (\A i \in 1..3 : (S[i] * F.sn) % F.sd = 0) /\ Generic(f) =>
       /\ Cardinality(Cr(e)) = Cardinality(Cr(f))
       /\ \A c \in Cr(e) : \E d \in Cr(f) : AbsV(c.t - 2 * d.t) <= 24 /\ c.m = d.m
InBox(e) == LET b == Extent(o, Unit) IN o.k \in {"or", "and"} =>
   \A c \in Cr(e) : LET p == P16(S, D, c.t) IN \A i \in 1..3 : 16 * b.lo[i] - 2 <= p[i] /\ p[i] <= 16 * b.hi[i] + 2
Laws == ray # <<>> => LET e == Ev(o, Unit, S, D)  g == Generic(e) IN
        g => Boundary(e) /\ Outward(e) /\ PointInside(e) /\ Covariant(e) /\ InBox(e)
=============================================================================
