------------------------------- MODULE MeshGen -------------------------------
(* well-formed files, with every line of the palette put in any place of them
   or in place of any line, every line left out or doubled, and cut anywhere   *)
EXTENDS MeshPal, Json, IOUtils, SequencesExt
Head1 == <<<<Wd("ply")>>, Fmt, <<Wd("comment"), Wd("a"), Junk>>, El("vertex", 4), Pr("x"), Pr("y"), Pr("z")>>
Verts(ex) == <<<<In(0), In(0), Fl(1500)>> \o ex, <<In(1), Fl(-250), In(0)>> \o ex, <<Fl(1100), In(1), In(0)>> \o ex, <<In(0), Fl(1001), In(2)>> \o ex>>
Ply1 == Head1 \o <<El("face", 2), Lst, End>> \o Verts(<<>>) \o <<<<In(4), In(0), In(1), In(2), In(3)>>, <<In(3), In(3), In(2), In(1)>>>>
Ply2 == Head1 \o <<Pr("nx"), El("face", 1), Lst, Pr("a"), El("edge", 1), Pr("v"), End>> \o Verts(<<In(7)>>) \o <<<<In(3), In(1), In(2), In(0), In(9)>>, <<In(0), In(1)>>>>
Obj1 == <<<<Hash, Wd("b")>>, <<Wd("g"), Wd("body")>>, <<Wd("v"), In(0), In(0), Fl(1500)>>, <<Wd("v"), In(1), Fl(-250), In(0)>>, <<Wd("v"), Fl(1100), In(1), In(0), In(1)>>,
          <<Wd("vt"), In(0), In(1)>>, <<Wd("v"), In(0), Fl(1001), In(2)>>, <<Wd("f"), In(1), In(2), In(3)>>, <<Wd("usemtl"), Wd("red")>>, <<Wd("f"), Sl(4), Sl(3), Sl(2), Sl(1)>>,
          <<>>, <<Wd("usemtl"), Wd("blue")>>, <<Wd("f"), In(2), In(4), In(1)>>, <<Wd("usemtl"), Wd("red")>>, <<Wd("f"), In(1), In(3), In(2)>>>>
Muts(b, pal) == {b} \cup {SubSeq(b, 1, i) : i \in 0..Len(b)}
   \cup {SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b)) : i \in 1..Len(b)}
   \cup {SubSeq(b, 1, i) \o SubSeq(b, i, Len(b)) : i \in 1..Len(b)}
   \cup {SubSeq(b, 1, i - 1) \o <<x>> \o SubSeq(b, i + 1, Len(b)) : i \in 1..Len(b), x \in pal}
   \cup {SubSeq(b, 1, i) \o <<x>> \o SubSeq(b, i + 1, Len(b)) : i \in 0..Len(b), x \in pal}
   \cup {[b EXCEPT ![i] = b[j], ![j] = b[i]] : i \in 1..Len(b), j \in 1..Len(b)}
(* a PLY body has no room for blank lines *)
NoBlank(ls) == \A i \in 1..Len(ls) : ls[i] # <<>>
Scn == {[kind |-> "ply", ls |-> x] : x \in {y \in Muts(Ply1, LPLines) \cup Muts(Ply2, LPLines) : NoBlank(y)}}
       \cup {[kind |-> "obj", ls |-> x] : x \in Muts(Obj1, LOLines)}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Scn))
VARIABLE cnt
GInit == cnt = Cardinality(Scn) /\ p = 0 /\ o = 0
GSpec == GInit /\ [][FALSE /\ UNCHANGED <<cnt, p, o>>]_<<cnt, p, o>>
=============================================================================
