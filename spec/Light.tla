------------------------------- MODULE Light -------------------------------
(* Light transport between parallel surfaces (C04, C06). The scene is a stack
   of unbounded horizontal layers at distinct heights, all facing up, and of
   light sources at distinct heights. Brightnesses are in 1/1000000 per
   channel, reflectivities and weights in quarters.

   A ray is at a height, goes up or down and has a slope: V vertical, A with
   cos 3/5, B with cos 4/5 or U unknown (after a diffuse bounce). Values are
   <<r, g, b, ok>>; not ok where the value depends on an unknown slope.

   Materials:  flat c | matte c | refl c | trans c | blend a A b B
     | bmap key A B | two front back | fres n A | refr n1 n2                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ONE == 1000000
Black == <<0, 0, 0, TRUE>>
Unknown == <<0, 0, 0, FALSE>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] /\ b[4]>>
Qu(a, c) == <<(a[1] * c[1]) \div 4, (a[2] * c[2]) \div 4, (a[3] * c[3]) \div 4, a[4]>>    \* times a colour in quarters
Part(a, n, d) == IF n = 0 THEN Black          \* a share of zero is nothing, known or not
                 ELSE <<(a[1] \div d) * n + (((a[1] % d) * n) \div d), (a[2] \div d) * n + (((a[2] % d) * n) \div d),
                        (a[3] \div d) * n + (((a[3] % d) * n) \div d), a[4]>>
Emit(c) == <<c[1] * (ONE \div 4), c[2] * (ONE \div 4), c[3] * (ONE \div 4), TRUE>>
Cos(sl) == CASE sl = "V" -> <<1, 1>> [] sl = "A" -> <<3, 5>> [] sl = "B" -> <<4, 5>>

(* share reflected when passing from index a to b (in thirds), and the slope
   behind; d = 0: all of it; d = -1: not known *)
Fresnel(a, b, sl) ==
  CASE a = b -> [n |-> 0, d |-> 1, sl |-> sl]
    [] sl = "V" /\ {a, b} = {3, 4} -> [n |-> 1, d |-> 49, sl |-> "V"]
    [] sl = "V" /\ {a, b} = {3, 9} -> [n |-> 1, d |-> 4, sl |-> "V"]
    [] sl = "V" /\ {a, b} = {4, 9} -> [n |-> 25, d |-> 169, sl |-> "V"]
    [] sl = "A" /\ a = 3 /\ b = 4 -> [n |-> 49, d |-> 1250, sl |-> "B"]
    [] sl = "B" /\ a = 4 /\ b = 3 -> [n |-> 49, d |-> 1250, sl |-> "A"]
    [] sl = "A" /\ a = 4 /\ b = 3 -> [n |-> 1, d |-> 0, sl |-> "V"]
    [] sl \in {"A", "B"} /\ a = 9 /\ b \in {3, 4} -> [n |-> 1, d |-> 0, sl |-> "V"]
    [] OTHER -> [n |-> 0, d |-> -1, sl |-> "V"]

(* shadow: what is left of intensity i from height h at height y *)
Between(y, h, z) == IF h > y THEN y < z /\ z < h ELSE h < z /\ z < y
RECURSIVE Filtered(_, _, _, _, _)
Filtered(sc, k, y, h, i) ==
  IF k = 0 THEN i
  ELSE LET L == sc.layers[k] IN
       IF ~Between(y, h, L.y) THEN Filtered(sc, k - 1, y, h, i)
       ELSE IF L.m.k = "trans" THEN Filtered(sc, k - 1, y, h, Qu(i, L.m.c))
       ELSE Black
RECURSIVE Direct(_, _, _, _)
Direct(sc, k, y, up) ==       \* light arriving on the upper (up) or lower side of the layer at y
  IF k = 0 THEN Black
  ELSE LET s == sc.lights[k]  rest == Direct(sc, k - 1, y, up) IN
       IF s.y = y \/ (s.y > y) # up THEN rest
       ELSE Plus(Part(Filtered(sc, Len(sc.layers), y, s.y, Emit(s.i)), Cos(s.sl)[1], Cos(s.sl)[2]), rest)

RECURSIVE LF(_, _, _, _, _, _), Shade(_, _, _, _, _, _)
(* brightness seen from height y; used: bounces used; ind: lights look black *)
LF(sc, y, up, sl, used, ind) ==
  IF used = sc.rec THEN Black
  ELSE LET ls == {i \in 1..Len(sc.layers) : IF up THEN sc.layers[i].y > y ELSE sc.layers[i].y < y}
           ss == {i \in 1..Len(sc.lights) : sc.lights[i].vis /\ IF up THEN sc.lights[i].y > y ELSE sc.lights[i].y < y}
           all == {sc.layers[i].y : i \in ls} \cup {sc.lights[i].y : i \in ss}
       IN IF all = {} THEN Black
          ELSE LET z == CHOOSE z \in all : \A w \in all : IF up THEN z <= w ELSE z >= w IN
               IF \E i \in ls : sc.layers[i].y = z
               THEN Shade(sc, (CHOOSE L \in {sc.layers[i] : i \in ls} : L.y = z).m, z, up, sl, used + 1)
               ELSE IF ind THEN Black
               ELSE Emit((CHOOSE s \in {sc.lights[i] : i \in ss} : s.y = z).c)
Shade(sc, m, y, up, sl, used) ==
  CASE m.k = "flat" -> Emit(m.c)
    [] m.k = "matte" -> Qu(Plus(Direct(sc, Len(sc.lights), y, ~up), LF(sc, y, ~up, "U", used, TRUE)), m.c)
    [] m.k = "refl" -> Qu(LF(sc, y, ~up, sl, used, FALSE), m.c)
    [] m.k = "trans" -> Qu(LF(sc, y, up, sl, used, TRUE), m.c)
    [] m.k = "blend" -> Plus(Part(Shade(sc, m.A, y, up, sl, used), m.a, 4), Part(Shade(sc, m.B, y, up, sl, used), m.b, 4))
    [] m.k = "bmap" -> Plus(Part(Shade(sc, m.A, y, up, sl, used), m.key, 4), Part(Shade(sc, m.B, y, up, sl, used), 4 - m.key, 4))
    [] m.k = "two" -> Shade(sc, IF up THEN m.A ELSE m.B, y, up, sl, used)
    [] m.k = "fres" -> LET f == Fresnel(3, m.n, sl) IN
         IF f.d = -1 THEN Unknown
         ELSE Plus(Part(LF(sc, y, ~up, sl, used, FALSE), f.n, f.d), Part(Shade(sc, m.A, y, up, sl, used), f.d - f.n, f.d))
    [] m.k = "refr" -> LET f == IF up THEN Fresnel(m.n2, m.n1, sl) ELSE Fresnel(m.n1, m.n2, sl) IN
         IF f.d = -1 THEN Unknown
         ELSE IF f.d = 0 THEN LF(sc, y, ~up, sl, used, FALSE)
         ELSE Plus(Part(LF(sc, y, ~up, sl, used, FALSE), f.n, f.d), Part(LF(sc, y, up, f.sl, used, FALSE), f.d - f.n, f.d))
See(sc, r) == IF r.ind THEN LF(sc, r.y, r.up, r.sl, 0, TRUE) ELSE LF(sc, r.y, r.up, r.sl, 0, FALSE)
=============================================================================
