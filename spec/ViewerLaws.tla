----------------------------- MODULE ViewerLaws -----------------------------
(* all sequences of input events up to a length; what must be so of the view *)
EXTENDS ViewerUI, TLC
CONSTANT Depth
VARIABLES u, v, n, e
K(c, s) == [t |-> "key", code |-> c, dir |-> "press", shift |-> s]
M(x, y, b, d, s) == [t |-> "mouse", x |-> x, y |-> y, button |-> b, dir |-> d, shift |-> s]
Evs == {K(c, s) : c \in {"Left", "F", "Up", "D"}, s \in {0, 1}} \cup {K(c, 0) : c \in {"Space", "X", "Z", "N", "P"}}
       \cup {M(x, y, b, d, 0) : x \in {0, 200}, y \in {-300, 100, 200}, b \in {"left"}, d \in {"press", "release"}}
       \cup {M(0, y, "", "", 0) : y \in {-300, 200, 320}} \cup {M(0, 0, b, "step", s) : b \in {"wheelup", "wheeldown"}, s \in {0, 1}}
       \cup {[t |-> "size", w |-> 45, h |-> 77]}
LInit == u = U0 /\ v = U0 /\ n = 0 /\ e = [t |-> "paint"]
LNext == n < Depth /\ n' = n + 1 /\ \E x \in Evs : e' = x /\ v' = u /\ u' = UI(u, x)
LSpec == LInit /\ [][LNext]_<<u, v, n, e>>
Upright == PitchOf(u) >= -1570796 /\ PitchOf(u) <= 1570796 /\ CosP(u) >= 0
D2(a, b) == ((a.x - b.x) \div 50) * ((a.x - b.x) \div 50) + ((a.y - b.y) \div 50) * ((a.y - b.y) \div 50) + ((a.z - b.z) \div 50) * ((a.z - b.z) \div 50)
Moved == u.x # v.x \/ u.y # v.y \/ u.z # v.z
StepLength == Moved => Close(D2(u, v), 1000000, 4000)                 \* 0.05, whatever the direction
Back(x) == CASE x = "Left" -> "F" [] x = "F" -> "Left" [] x = "Up" -> "D" [] x = "D" -> "Up" [] OTHER -> x
Reversible == (e.t = "key" /\ e.code \in {"Left", "F", "Up", "D"}) => Same(UI(u, [e EXCEPT !.code = Back(e.code)]), v)
Cycle == LET N(a) == UI(a, K("N", 0)) IN N(N(N(u))) = u /\ UI(UI(u, K("P", 0)), K("P", 0)) = u
Toggle == \A c \in {"X", "Y", "Z"} : LET T(a) == UI(a, K(c, 0)) IN T(T(u)).iso = 1 - T(u).iso /\ Same(T(T(T(u))), T(u))
UpIsUp == e.t = "key" /\ e.code = "Space" => u.y >= v.y
=============================================================================
