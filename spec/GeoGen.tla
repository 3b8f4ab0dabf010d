------------------------------- MODULE GeoGen -------------------------------
(* All boolean combinations of up to three solids from a palette whose members
   overlap in many ways.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
P(i, m) == CASE i = 1 -> [k |-> "box", lo |-> <<-9, -7, -5>>, hi |-> <<5, 7, 8>>, m |-> m]
             [] i = 2 -> [k |-> "sph", c |-> <<2, 1, -2>>, r |-> 9, m |-> m]
             [] i = 3 -> [k |-> "cyl", dir |-> 2, c |-> <<-2, 2, 1>>, r |-> 6, h |-> 10, m |-> m]
             [] i = 4 -> [k |-> "cyl", dir |-> 1, c |-> <<0, 0, 0>>, r |-> 4, h |-> 99999, m |-> m]
             [] i = 5 -> [k |-> "rect", c |-> <<0, 1, 0>>, w |-> 12, d |-> 11, m |-> m]
Bin == {"and", "or", "dif", "res", "rem"}
B(k, x, y) == [k |-> k, x |-> x, y |-> y]
Un(u, x) == IF u = "" THEN x ELSE [k |-> u, x |-> x]
Two == {B(k, P(i, 1), P(j, 2)) : k \in Bin, i \in 1..5, j \in 1..4}
TwoU == {B(k, Un(u, P(i, 1)), Un(v, P(j, 2))) : k \in Bin, i \in 1..3, j \in 1..3, u \in {"", "not", "hol"}, v \in {"not", "hol"}}
Three == {B(k, B(n, P(i, 1), P(j, 2)), P(h, 3)) : k \in Bin, n \in Bin, i \in 1..5, j \in 1..3, h \in 1..4}
         \cup {B(k, P(h, 3), B(n, P(i, 1), P(j, 2))) : k \in Bin, n \in Bin, i \in 1..3, j \in 1..4, h \in 1..5}
Four == {B(k, B(n, P(1, 1), P(2, 2)), B(o, P(3, 3), P(4, 4))) : k \in Bin, n \in Bin, o \in Bin}
Scn == Two \cup TwoU \cup Three \cup Four
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Scn))
VARIABLE x
Init == x = Cardinality(Scn)
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
