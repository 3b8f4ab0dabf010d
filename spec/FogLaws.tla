------------------------------ MODULE FogLaws ------------------------------
(* The formula for the part below the ceiling against counting small steps of
   the ray, and laws of attenuation, for all rays and fogs of a palette.      *)
EXTENDS Fog, FiniteSets
CONSTANTS Ys, Hs, Slopes, Ends, Ks
VARIABLES r, h, k
Init == /\ r \in {[y |-> y, dy |-> s[1], L |-> s[2], end |-> e] : y \in Ys, s \in Slopes, e \in Ends}
        /\ h \in Hs /\ k \in Ks
Next == UNCHANGED <<r, h, k>>
Spec == Init /\ [][Next]_<<r, h, k>>
(* midpoints of steps of 1/4 of a unit (1/8): below iff 8*L*y + (2i+1)*dy < 8*L*h *)
Counted == Cardinality({i \in 0..(4 * r.end - 1) : 8 * r.L * r.y + (2 * i + 1) * r.dy < 8 * r.L * h})
Formula == r.end # INF /\ h # INF /\ (r.dy # 0 \/ r.y # h) => LET d == 4 * Length(r, h) - 1000 * Counted IN d <= 4001 /\ -d <= 4001
Bounds == LET t == Trans(k, Length(r, h)) IN t \in 0..10000 /\ (k = 0 \/ Length(r, h) = 0 => t = 10000)
Farther == \A e \in Ends : e >= r.end => Trans(k, Length([r EXCEPT !.end = e], h)) <= Trans(k, Length(r, h)) + 1
Double == LET a == [kind |-> "exp", k |-> k, h |-> h, amb |-> <<4000, 0, 10000>>, nl |-> 0]
              c == <<10000, 20000, 0>>
              one == Through(<<[a EXCEPT !.k = 2 * k]>>, r, <<>>, c)
              two == Through(<<a, a>>, r, <<>>, c)
          IN \A i \in 1..3 : one[i] - two[i] <= 60 /\ two[i] - one[i] <= 60
Unlit == LET a == [kind |-> "lit", k |-> k, h |-> h, amb |-> <<0, 0, 0>>, nl |-> 2]
             c == <<10000, 20000, 40000>>
             v == Through(<<a>>, r, <<[i |-> <<9, 9, 9>>, vis |-> FALSE]>>, c)
         IN \A i \in 1..3 : v[i] <= c[i]
=============================================================================
