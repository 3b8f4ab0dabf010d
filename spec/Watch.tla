-------------------------------- MODULE Watch --------------------------------
(* The watcher, its source file and the programs built from it. The file has
   versions 1, 2, ...; a version is "good", "exits" (runs and ends by itself),
   "bad" (does not compile) or "nostart" (compiles, cannot be started).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == {"good", "exits", "bad", "nostart"}
CONSTANTS MaxEdits
VARIABLES kind,     \* kinds of the versions so far
          seen,     \* version the watcher noticed last
          pc,       \* what the watcher does: poll, kill, build, start
          src,      \* version the build reads
          bin,      \* version the program file was built from
          live,     \* versions that are running
          o,        \* what an observer knows
          fine      \* whether everything observed was allowed
vars == <<kind, seen, pc, src, bin, live, o, fine>>

-----------------------------------------------------------------------------
(* What can be observed of a watcher: s holds the kinds of the versions so
   far, the number of builds, the last version built and whether it was a
   success, and the program started last. e is an observation:
     edit v kind        about to change the file to version v
     build v dir file   a build started, and read version v
     built v ok         it ended
     start v args dir others    a program started; others: programs then alive
     quiet alive watcher        nothing happens any more
   conf: the directory, file, base name and arguments the watcher was given    *)
O0 == [kind |-> <<>>, builds |-> 0, last |-> 0, done |-> 0, ok |-> FALSE, started |-> 0]
OStep(s, e) ==
  CASE e.ev = "edit" -> [s EXCEPT !.kind = Append(@, e.kind)]
    [] e.ev = "build" -> [s EXCEPT !.builds = @ + 1, !.last = e.v, !.ok = FALSE]
    [] e.ev = "built" -> [s EXCEPT !.done = e.v, !.ok = (e.ok = 1)]
    [] e.ev = "start" -> [s EXCEPT !.started = e.v, !.ok = FALSE]
    [] OTHER -> s
Allowed(conf, s, e) ==
  CASE e.ev = "edit" -> TRUE
       (* one build for each change at most, of the version there is *)
    [] e.ev = "build" -> /\ s.builds < Len(s.kind) /\ e.v \in {Len(s.kind), Len(s.kind) - 1}
                         /\ e.dir = conf.dir /\ e.file = conf.file
    [] e.ev = "built" -> TRUE
       (* what was just built, once, and nothing else runs *)
    [] e.ev = "start" -> /\ s.ok /\ e.v = s.done
                         /\ e.others = <<>>
                         /\ e.dir = conf.dir /\ e.args = <<"-o", conf.base \o ".jpg">> \o conf.args
       (* the newest version was built, and runs unless it cannot *)
    [] e.ev = "quiet" -> LET c == Len(s.kind) IN
                         /\ e.watcher = 1 /\ s.last = c /\ s.done = c
                         /\ e.alive = (IF s.kind[c] = "good" THEN <<c>> ELSE <<>>)
                         /\ (s.kind[c] \in {"good", "exits"} => s.started = c)
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
Conf == [dir |-> "d", file |-> "f.go", base |-> "f", args |-> <<"x">>]
Sees(e) == o' = OStep(o, e) /\ fine' = (fine /\ Allowed(Conf, o, e))
Blind == UNCHANGED <<o, fine>>
Cur == Len(kind)
SeqOf(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i < j => q[i] < q[j]
WInit == /\ kind \in {<<k>> : k \in Kinds} /\ seen = 0 /\ pc = "poll" /\ src = 0 /\ bin = 0 /\ live = {}
         /\ o = OStep(O0, [ev |-> "edit", kind |-> kind[1]]) /\ fine = TRUE
Edit == /\ Cur < 1 + MaxEdits
        /\ \E k \in Kinds : kind' = Append(kind, k) /\ Sees([ev |-> "edit", v |-> Cur + 1, kind |-> k])
        /\ UNCHANGED <<seen, pc, src, bin, live>>
Exit == /\ \E v \in live : kind[v] = "exits" /\ live' = live \ {v}
        /\ UNCHANGED <<kind, seen, pc, src, bin>> /\ Blind
Poll == pc = "poll" /\ seen # Cur /\ seen' = Cur /\ pc' = "kill" /\ UNCHANGED <<kind, src, bin, live>> /\ Blind
Kill == pc = "kill" /\ live' = {} /\ pc' = "build" /\ UNCHANGED <<kind, seen, src, bin>> /\ Blind
Build == /\ pc = "build" /\ src' = Cur /\ pc' = "built" /\ UNCHANGED <<kind, seen, bin, live>>
         /\ Sees([ev |-> "build", v |-> Cur, dir |-> "d", file |-> "f.go"])
Built == /\ pc = "built" /\ UNCHANGED <<kind, seen, src, live>>
         /\ Sees([ev |-> "built", v |-> src, ok |-> IF kind[src] = "bad" THEN 0 ELSE 1])
         /\ IF kind[src] = "bad" THEN pc' = "poll" /\ bin' = bin ELSE pc' = "start" /\ bin' = src
Start == /\ pc = "start" /\ pc' = "poll" /\ UNCHANGED <<kind, seen, src, bin>>
         /\ IF kind[bin] = "nostart" THEN live' = live /\ Blind
            ELSE /\ live' = live \cup {bin}
                 /\ Sees([ev |-> "start", v |-> bin, dir |-> "d", args |-> <<"-o", "f.jpg", "x">>, others |-> SeqOf(live)])
Watcher == Poll \/ Kill \/ Build \/ Built \/ Start
WSpec == WInit /\ [][Watcher \/ Edit \/ Exit]_vars /\ WF_vars(Watcher) /\ WF_vars(Exit)
OnlyOne == Cardinality(live) <= 1
NoneWhileBuilding == pc \in {"build", "built", "start"} => live = {}
Newest == pc # "kill" => \A v \in live : v >= seen   \* what runs is as new as what was noticed, or newer
Settled == pc = "poll" /\ seen = Cur
Right == Settled => live \subseteq {Cur} /\ (kind[Cur] = "good" => live = {Cur}) /\ (kind[Cur] \in {"bad", "nostart"} => live = {})
(* the observer never objects to this watcher, nor when it has settled *)
Unobjected == /\ fine
              /\ Settled /\ (\A v \in live : kind[v] # "exits")
                    => Allowed(Conf, o, [ev |-> "quiet", watcher |-> 1, alive |-> SeqOf(live)])
Ends == <>[](Settled /\ live = (IF kind[Cur] = "good" THEN {Cur} ELSE {}))
=============================================================================
