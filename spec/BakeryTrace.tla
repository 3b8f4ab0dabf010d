----------------------------- MODULE BakeryTrace -----------------------------
(* Replays client histories against Bakery, for several pixels at once.
   base: what the server may keep, as a set of possibilities (after a bake
   whose client went away, or a failed bake, more than one).                  *)
EXTENDS TraceBase
VARIABLES running, poss, seen
B == INSTANCE Bakery WITH Views <- {}, MaxPass <- 0, running <- 0, kept <- 0, pass <- 0, answers <- <<>>
(* possibility: [view, px, extra, num]: px = per pixel the evaluations known to
   be in the image, extra = passes of lost answers                            *)
None == [view |-> 0, px |-> <<>>, extra |-> 0, num |-> 1]
BaseOf(k, v) == IF k.view = v THEN k ELSE [view |-> v, px |-> <<>>, extra |-> 0, num |-> 1]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Fits(k, v, c) ==      \* candidate c = [n, px] continues possibility k
  LET b == BaseOf(k, v) IN
  /\ \A i \in 1..Len(c.px) : LET s == SetOf(c.px[i])
                                 o == IF b.px = <<>> THEN {} ELSE SetOf(b.px[i]) IN
       /\ o \subseteq s /\ Cardinality(s) = Cardinality(o) + b.extra + b.num
       /\ (s \ o) \cap seen[v][i] = {}
Cont(k, v, c) == [view |-> v, px |-> c.px, extra |-> 0, num |-> BaseOf(k, v).num + 1]
Lost(k, v) == LET b == BaseOf(k, v) IN [b EXCEPT !.extra = @ + b.num, !.num = @ + 1]
(* an answer with an image: right size, right view, and some decoding fits *)
ImageOk(e) == e.res = "ok" /\ e.w = e.ew /\ e.h = e.eh /\ e.code = 1
GoodPoss(e) == {p \in {Cont(k, e.v, c) : k \in poss, c \in SetOf(e.cands)} :
                  \E k \in poss, c \in SetOf(e.cands) : p = Cont(k, e.v, c) /\ Fits(k, e.v, c)}
FitC(e) == {c \in SetOf(e.cands) : \E k \in poss : Fits(k, e.v, c)}
Add(v, cs) == [seen EXCEPT ![v] = [i \in 1..Len(@) |-> @[i] \cup UNION {SetOf(c.px[i]) : c \in cs}]]
BlankOk(e) == e.res = "ok" /\ e.w = e.ew /\ e.h = e.eh /\ e.zero = 1
Failed(v) == poss \cup {None} \cup {Lost(k, v) : k \in poss}

(* step: <<ok, running', poss', seen'>> *)
Step0(e) ==
  CASE e.ev = "reset" -> <<TRUE, 0, {None}, [v \in 1..e.views |-> [i \in 1..e.pix |-> {}]]>>
    [] e.ev = "bake" ->       \* request and answer, nothing in between
         IF running # 0 THEN <<e.res # "ok", running, poss, seen>>
         ELSE IF e.blank = 1 THEN <<BlankOk(e), 0, {[view |-> e.v, px |-> <<>>, extra |-> 0, num |-> 1]}, seen>>
         ELSE LET g == IF ImageOk(e) THEN GoodPoss(e) ELSE {} IN
              <<g # {}, 0, IF g # {} THEN g ELSE Failed(e.v), IF ImageOk(e) THEN Add(e.v, FitC(e)) ELSE seen>>
    [] e.ev = "start" ->      \* request only; accepted = 1: it renders
         IF running # 0 THEN <<e.accepted = 0, running, poss, seen>>
         ELSE <<e.accepted = 1, IF e.accepted = 1 THEN e.v ELSE 0, poss, seen>>
    [] e.ev = "finish" ->     \* the answer of the running bake
         IF running = 0 THEN <<TRUE, 0, poss, seen>>
         ELSE LET g == IF ImageOk(e) THEN GoodPoss(e) ELSE {} IN
              <<g # {} \/ (e.cancelled = 1 /\ e.res # "ok"), 0, IF g # {} THEN g ELSE Failed(running), IF ImageOk(e) THEN Add(e.v, FitC(e)) ELSE seen>>
    [] e.ev = "drop" ->       \* its client has gone
         <<TRUE, 0, IF running = 0 THEN poss ELSE poss \cup {Lost(k, running) : k \in poss}, seen>>
    [] e.ev = "preview" ->    \* one fresh pass of that view
         <<ImageOk(e) /\ \E c \in SetOf(e.cands) : c.n = 1 /\ \A i \in 1..Len(c.px) : SetOf(c.px[i]) \cap seen[e.v][i] = {},
           running, poss, IF ImageOk(e) THEN Add(e.v, {c \in SetOf(e.cands) : c.n = 1}) ELSE seen>>
    [] e.ev = "badbake" -> <<e.res # "ok", running, IF running = 0 /\ e.reached = 1 THEN poss \cup {None} ELSE poss, seen>>
    [] e.ev = "badpreview" -> <<e.res # "ok", running, poss, seen>>
    [] e.ev = "settled" ->    \* after an abandoned bake the server becomes free again
         <<e.res = "ok", 0, {None}, seen>>
    [] e.ev = "cancel" -> <<e.res = "ok", running, poss, seen>>
    [] e.ev = "overlap" ->    \* every refused bake met a running one
         <<\A r \in SetOf(e.refused) : \E o \in SetOf(e.oks) : o[1] <= r[2] /\ r[1] <= o[2], running, poss, seen>>
    [] e.ev = "long" ->       \* the k-th bake of a view in a row: its pixels were evaluated 1 + 2 + ... + k times, the image is their mean
         <<e.res = "ok" /\ Len(e.ns) = e.pix /\ (\A i \in 1..Len(e.ns) : e.ns[i] = (e.k * (e.k + 1)) \div 2)
           /\ (\A i \in 1..Len(e.mean) : e.mean[i] = 1000), 0, {None}, seen>>
    [] e.ev = "order" ->      \* passes of different bakes of a stress run do not interleave; o = <<sent, first pass, last pass, received>>
         <</\ \A i \in 1..Len(e.o) : e.o[i][1] < e.o[i][2] /\ e.o[i][2] <= e.o[i][3] /\ e.o[i][3] < e.o[i][4]
           /\ \A i \in 2..Len(e.o) : e.o[i - 1][3] < e.o[i][2], running, poss, seen>>
    [] OTHER -> <<FALSE, running, poss, seen>>
Step == /\ l <= Len(Trace)
        /\ LET s == Step0(Trace[l]) IN
           /\ JStep(s[1]) /\ running' = s[2] /\ poss' = s[3] /\ seen' = s[4]
Spec == JInit /\ running = 0 /\ poss = {None} /\ seen = <<>> /\ [][Step \/ (JDone /\ UNCHANGED <<running, poss, seen>>)]_<<l, bad, running, poss, seen>>
=============================================================================
