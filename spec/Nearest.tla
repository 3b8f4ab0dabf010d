------------------------------ MODULE Nearest ------------------------------
(* Finding the nearest of many objects by a hierarchy of boxes. For one ray,
   object i is hit at hit[i] (0: missed) and its box is met at box[i] (0:
   missed), never behind the hit. A node is a range of objects; its box is met
   as soon as one of its members' is. Groups may be split anywhere and in any
   order, members of a missed box and, optionally, those whose box begins
   behind the nearest hit so far are skipped.
   Checked: the result is the nearest hit of all, for every arrangement,
   hierarchy and order of traversal.                                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, T
VARIABLES hit, box, todo, front
vars == <<hit, box, todo, front>>
INF == T + 1
Init == /\ hit \in [1..N -> 0..T] /\ box \in [1..N -> 0..T]
        /\ \A i \in 1..N : hit[i] > 0 => box[i] > 0 /\ box[i] <= hit[i]
        /\ todo = {<<1, N>>} /\ front = INF
Entry(a, b) == LET m == {box[i] : i \in a..b} \ {0} IN IF m = {} THEN 0 ELSE CHOOSE k \in m : \A j \in m : k <= j
Visit == \E r \in todo :
   /\ UNCHANGED <<hit, box>>
   /\ \/ Entry(r[1], r[2]) = 0 /\ todo' = todo \ {r} /\ UNCHANGED front          \* missed
      \/ Entry(r[1], r[2]) >= front /\ todo' = todo \ {r} /\ UNCHANGED front     \* hidden
      \/ /\ r[1] = r[2] /\ todo' = todo \ {r}
         /\ front' = IF hit[r[1]] > 0 /\ hit[r[1]] < front THEN hit[r[1]] ELSE front
      \/ \E m \in r[1]..(r[2] - 1) : todo' = (todo \ {r}) \cup {<<r[1], m>>, <<m + 1, r[2]>>} /\ UNCHANGED front
Spec == Init /\ [][Visit]_vars /\ WF_vars(Visit)
Hits == {hit[i] : i \in 1..N} \ {0}
Right == todo = {} => front = IF Hits = {} THEN INF ELSE CHOOSE k \in Hits : \A j \in Hits : k <= j
Ends == <>(todo = {})
=============================================================================
