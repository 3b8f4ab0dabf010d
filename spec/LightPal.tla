------------------------------ MODULE LightPal ------------------------------
(* Materials, nested up to two deep, and small layered scenes over them.      *)
EXTENDS Light
F(a, b, c) == [k |-> "flat", c |-> <<a, b, c>>]
Basic == {F(4, 2, 1), [k |-> "matte", c |-> <<3, 4, 2>>], [k |-> "refl", c |-> <<4, 3, 2>>], [k |-> "trans", c |-> <<2, 3, 4>>]}
Deep == {[k |-> "blend", a |-> 1, A |-> [k |-> "matte", c |-> <<4, 4, 4>>], b |-> 3, B |-> [k |-> "refl", c |-> <<4, 4, 4>>]],
         [k |-> "blend", a |-> 2, A |-> F(4, 0, 0), b |-> 1, B |-> [k |-> "trans", c |-> <<4, 4, 2>>]],
         [k |-> "bmap", key |-> 1, A |-> [k |-> "refl", c |-> <<4, 4, 4>>], B |-> [k |-> "matte", c |-> <<2, 2, 2>>]],
         [k |-> "bmap", key |-> 0, A |-> F(4, 4, 4), B |-> F(1, 2, 3)],
         [k |-> "two", A |-> F(4, 4, 0), B |-> [k |-> "refl", c |-> <<2, 4, 4>>]],
         [k |-> "two", A |-> [k |-> "trans", c |-> <<4, 4, 4>>], B |-> [k |-> "matte", c |-> <<4, 2, 4>>]],
         [k |-> "fres", n |-> 4, A |-> [k |-> "matte", c |-> <<4, 4, 4>>]],
         [k |-> "fres", n |-> 9, A |-> [k |-> "trans", c |-> <<4, 3, 4>>]],
         [k |-> "refr", n1 |-> 3, n2 |-> 4], [k |-> "refr", n1 |-> 4, n2 |-> 3], [k |-> "refr", n1 |-> 9, n2 |-> 3],
         [k |-> "refr", n1 |-> 3, n2 |-> 3]}
Mats == Basic \cup Deep
Lights == {<<>>,
           <<[y |-> 9, sl |-> "A", i |-> <<4, 3, 2>>, vis |-> TRUE, c |-> <<8, 8, 8>>]>>,
           <<[y |-> 3, sl |-> "V", i |-> <<1, 2, 3>>, vis |-> FALSE, c |-> <<0, 0, 0>>],
             [y |-> -3, sl |-> "B", i |-> <<4, 4, 4>>, vis |-> TRUE, c |-> <<6, 0, 6>>]>>}
L(y, m) == [y |-> y, m |-> m]
=============================================================================
