----------------------------- MODULE LightLaws ------------------------------
(* Light.tla checked against itself on small stacks: nothing is seen with no
   bounces left, more bounces never darken, no surface makes light (without
   light sources nothing is brighter than the brightest emitter), the listing
   order does not matter, lights only add.                                    *)
EXTENDS LightPal
CONSTANT R
VARIABLES a, b, li, up
vars == <<a, b, li, up>>
Init == a \in Mats /\ b \in Mats /\ li \in Lights /\ up \in BOOLEAN
Spec == Init /\ [][UNCHANGED vars]_vars
Sc(r, s) == [rec |-> r, layers |-> <<L(2, a), L(-2, b), L(-6, F(4, 2, 2))>>, lights |-> s]
Sw(r, s) == [rec |-> r, layers |-> <<L(-6, F(4, 2, 2)), L(-2, b), L(2, a)>>, lights |-> s]
V(sc) == LF(sc, 0, up, "A", 0, FALSE)
Leq(v, w) == v[4] /\ w[4] => \A i \in 1..3 : v[i] <= w[i] + 20
Laws == /\ V(Sc(0, li)) = Black
        /\ \A r \in 0..R : Leq(V(Sc(r, li)), V(Sc(r + 1, li)))
        /\ \A r \in 1..R : V(Sc(r, li)) = V(Sw(r, li))
        /\ Leq(V(Sc(R, <<>>)), <<ONE, ONE, ONE, TRUE>>)
        /\ (\A i \in 1..Len(li) : ~li[i].vis) => Leq(V(Sc(R, <<>>)), V(Sc(R, li)))
=============================================================================
