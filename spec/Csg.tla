-------------------------------- MODULE Csg --------------------------------
(* Boolean combinations along one ray. The ray is cut into cells 1..N; a solid
   is the set of cells it fills, its surfaces are the ticks between a filled
   and an empty cell. An implementation only gets the next surface of an
   operand from some position on and may ask whether a point is inside: it
   marches over the surfaces of one operand until the other one agrees, then
   over the other's, and takes the nearer result.
   Checked: the march finds exactly the nearest surface of the combined set,
   so combinations nest to any depth, for every pair of solids, operation and
   starting point in general position (operands share no surface).            *)
EXTENDS Integers, FiniteSets
CONSTANT N
Cells == 1..N
Ops == {"and", "or", "dif", "res"}
VARIABLES x, y, op, s, phase, pos, ra, rb
vars == <<x, y, op, s, phase, pos, ra, rb>>

Surf(z) == {k \in 1..(N - 1) : (k \in z) # (k + 1 \in z)}
Min(S) == CHOOSE k \in S : \A j \in S : k <= j
First(S) == IF S = {} THEN 0 ELSE Min(S)

(* the meaning *)
Combined == CASE op = "and" -> x \cap y [] op = "or" -> x \cup y [] op = "dif" -> x \ y [] op = "res" -> x \cap y
Surfaces == IF op = "res" THEN {k \in Surf(x) : k \in y} ELSE Surf(Combined)
Expected == First({k \in Surfaces : k >= s})

(* the march *)
Other(k) == CASE op \in {"and", "res"} -> (IF phase = "a" THEN k \in y ELSE k \in x)
              [] op = "or" -> (IF phase = "a" THEN k \notin y ELSE k \notin x)
              [] op = "dif" -> (IF phase = "a" THEN k \notin y ELSE k \in x)
Mine == IF phase = "a" THEN x ELSE y
NextSurf == First({k \in Surf(Mine) : k >= pos})
Init == /\ x \in SUBSET Cells /\ y \in SUBSET Cells /\ op \in Ops /\ s \in 1..N
        /\ Surf(x) \cap Surf(y) = {}
        /\ phase = "a" /\ pos = s /\ ra = 0 /\ rb = 0
Found(k) == IF phase = "a" THEN /\ ra' = k /\ UNCHANGED rb /\ pos' = s
                                /\ phase' = IF op = "res" THEN "done" ELSE "b"
                           ELSE rb' = k /\ UNCHANGED <<ra, pos>> /\ phase' = "done"
March == /\ phase \in {"a", "b"}
         /\ LET k == NextSurf IN
            IF k = 0 \/ (phase = "b" /\ ra # 0 /\ k > ra) THEN Found(0)     \* none, or beyond the first result
            ELSE IF Other(k) THEN Found(k)
            ELSE pos' = k + 1 /\ UNCHANGED <<phase, ra, rb>>
         /\ UNCHANGED <<x, y, op, s>>
Spec == Init /\ [][March]_vars /\ WF_vars(March)
Result == IF ra = 0 THEN rb ELSE IF rb = 0 THEN ra ELSE Min({ra, rb})
NearestOfTheSet == phase = "done" => Result = Expected
Terminates == <>(phase = "done")
=============================================================================
