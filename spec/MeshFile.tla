------------------------------ MODULE MeshFile ------------------------------
(* Mesh files, read line by line. A line is a sequence of tokens, a token has
   a kind k, a text s and a value v:
     "w" word, "c" word starting with #, "i" integer v, "f" decimal v/1000,
     "s" integer v followed by /..., "n" not a finite number, "x" anything else.
   A reader's state holds the mesh so far. loose: the file leaves open whether
   it is acceptable, so an error or that mesh is fine.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Wd(x) == [k |-> "w", s |-> x, v |-> 0]
In(n) == [k |-> "i", s |-> "", v |-> n]
Fl(n) == [k |-> "f", s |-> "", v |-> n]
Sl(n) == [k |-> "s", s |-> "", v |-> n]
NaN == [k |-> "n", s |-> "", v |-> 0]
Junk == [k |-> "x", s |-> "1x", v |-> 0]
Hash == [k |-> "c", s |-> "#", v |-> 0]
Is(t, x) == t.k = "w" /\ t.s = x
Number(t) == t.k \in {"i", "f"}
Num(t) == IF t.k = "i" THEN 1000 * t.v ELSE t.v

-----------------------------------------------------------------------------
(* PLY (text form): header, vertices, faces *)
P0 == [ph |-> "magic", el |-> "", nv |-> 0, nf |-> 0, vp |-> 0, fp |-> 0,
       v |-> <<>>, f |-> <<>>, loose |-> FALSE]
PErr(s) == [s EXCEPT !.ph = "error"]
(* what comes after so many vertices and faces *)
Go(s) == [s EXCEPT !.ph = IF Len(s.v) < s.nv THEN "vertex" ELSE IF Len(s.f) < s.nf THEN "face" ELSE "done"]
Element(s, l) ==
  IF Len(l) # 3 \/ l[3].k # "i" THEN PErr(s)
  ELSE IF l[3].v < 0 THEN PErr(s)
  ELSE CASE l[2].s = "vertex" -> IF s.el = "" THEN [s EXCEPT !.el = "vertex", !.nv = l[3].v] ELSE PErr(s)
         [] l[2].s = "face" -> IF s.el = "vertex" THEN [s EXCEPT !.el = "face", !.nf = l[3].v] ELSE PErr(s)
         [] OTHER -> IF s.el \in {"face", "other"} THEN [s EXCEPT !.el = "other"] ELSE PErr(s)
Property(s, l) ==
  LET list == Len(l) = 5 /\ Is(l[2], "list")
      scalar == Len(l) = 3 /\ ~Is(l[2], "list")
      name == IF Len(l) > 0 THEN l[Len(l)] ELSE Junk
  IN IF ~list /\ ~scalar THEN PErr(s)
     ELSE CASE s.el = "vertex" -> IF s.vp < 3 /\ ~(scalar /\ Is(name, <<"x", "y", "z">>[s.vp + 1])) THEN PErr(s)
                                  ELSE [s EXCEPT !.vp = @ + 1]
            [] s.el = "face" -> IF s.fp = 0 /\ ~list THEN PErr(s) ELSE [s EXCEPT !.fp = @ + 1]
            [] s.el = "other" -> s
            [] OTHER -> PErr(s)
EndHeader(s) == IF (s.nv > 0 /\ s.vp < 3) \/ (s.nf > 0 /\ s.fp < 1) THEN PErr(s)
                ELSE Go([s EXCEPT !.loose = @ \/ s.el = ""])
Vertex(s, l) ==
  IF Len(l) < 3 THEN PErr(s)
  ELSE IF ~(\A c \in 1..3 : Number(l[c])) THEN PErr(s)
  ELSE Go([s EXCEPT !.v = Append(@, <<Num(l[1]), Num(l[2]), Num(l[3])>>), !.loose = @ \/ Len(l) # s.vp])
Face(s, l) ==
  IF l = <<>> THEN PErr(s)
  ELSE IF l[1].k # "i" \/ l[1].v \notin {3, 4} THEN PErr(s)
  ELSE IF Len(l) < l[1].v + 1 THEN PErr(s)
  ELSE LET n == l[1].v IN
       IF ~(\A c \in 2..(n + 1) : l[c].k = "i" /\ l[c].v >= 0 /\ l[c].v < s.nv) THEN PErr(s)
       ELSE Go([s EXCEPT !.f = Append(@, [c \in 1..n |-> l[c + 1].v]), !.loose = @ \/ Len(l) # n + s.fp])
PStep(s, l) ==
  CASE s.ph = "magic" -> IF l = <<Wd("ply")>> THEN [s EXCEPT !.ph = "format"] ELSE PErr(s)
    [] s.ph = "format" -> IF l = <<Wd("format"), Wd("ascii"), Wd("1.0")>> THEN [s EXCEPT !.ph = "header"] ELSE PErr(s)
    [] s.ph = "header" ->
         IF l = <<>> THEN [s EXCEPT !.loose = TRUE]
         ELSE IF Is(l[1], "comment") \/ Is(l[1], "obj_info") THEN s
         ELSE IF Is(l[1], "element") THEN Element(s, l)
         ELSE IF Is(l[1], "property") THEN Property(s, l)
         ELSE IF l = <<Wd("end_header")>> THEN EndHeader(s)
         ELSE PErr(s)
    [] s.ph = "vertex" -> Vertex(s, l)
    [] s.ph = "face" -> Face(s, l)
    [] s.ph = "done" -> IF s.el = "other" \/ l = <<>> THEN s ELSE [s EXCEPT !.loose = TRUE]
    [] OTHER -> s
RECURSIVE PRead(_, _, _)
PRead(s, ls, i) == IF i > Len(ls) \/ s.ph = "error" THEN s ELSE PRead(TLCEval(PStep(s, ls[i])), ls, i + 1)
PAccept(s) == s.ph = "done"

-----------------------------------------------------------------------------
(* OBJ: vertices, faces under the material in force; indices count from one,
   over the vertices of the whole file                                         *)
O0 == [ph |-> "ok", mat |-> "", v |-> <<>>, f |-> <<>>, loose |-> FALSE]
OErr(s) == [s EXCEPT !.ph = "error"]
Skipped == {"o", "vn", "vt", "s", "l", "g", "mtllib"}
OStep(s, l) ==
  IF s.ph = "error" \/ l = <<>> THEN s
  ELSE IF l[1].k = "c" THEN s
  ELSE IF l[1].k # "w" THEN OErr(s)
  ELSE CASE l[1].s \in Skipped -> s
         [] l[1].s = "v" ->
              IF Len(l) \notin {4, 5} THEN OErr(s)
              ELSE IF ~(\A c \in 2..4 : Number(l[c])) THEN OErr(s)
              ELSE [s EXCEPT !.v = Append(@, <<Num(l[2]), Num(l[3]), Num(l[4])>>),
                             !.loose = @ \/ (Len(l) = 5 /\ (IF Number(l[5]) THEN Num(l[5]) # 1000 ELSE TRUE))]
         [] l[1].s = "f" ->
              IF Len(l) \notin {4, 5} THEN OErr(s)
              ELSE IF ~(\A c \in 2..Len(l) : l[c].k \in {"i", "s"} /\ l[c].v >= 1) THEN OErr(s)
              ELSE [s EXCEPT !.f = Append(@, [m |-> s.mat, i |-> [c \in 1..(Len(l) - 1) |-> l[c + 1].v - 1]])]
         [] l[1].s = "usemtl" -> IF Len(l) # 2 THEN OErr(s) ELSE [s EXCEPT !.mat = l[2].s]
         [] OTHER -> OErr(s)
RECURSIVE ORead(_, _, _)
ORead(s, ls, i) == IF i > Len(ls) \/ s.ph = "error" THEN s ELSE ORead(TLCEval(OStep(s, ls[i])), ls, i + 1)
OAccept(s) == s.ph = "ok" /\ \A j \in 1..Len(s.f) : \A c \in 1..Len(s.f[j].i) : s.f[j].i[c] < Len(s.v)

-----------------------------------------------------------------------------
(* a mesh of triangles which has the faces fs: two triangles that share a
   diagonal for a quadrilateral; the vertices of a triangle may be rotated     *)
Rot(t, u) == Len(t) = Len(u) /\ \E r \in 0..(Len(t) - 1) : \A c \in 1..Len(t) : u[c] = t[((c - 1 + r) % Len(t)) + 1]
Split(q, d) == IF d = 0 THEN <<<<q[1], q[2], q[3]>>, <<q[3], q[4], q[1]>>>> ELSE <<<<q[2], q[3], q[4]>>, <<q[4], q[1], q[2]>>>>
Without(seq, i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))
Find(seq, t) == IF \E i \in 1..Len(seq) : Rot(t, seq[i])
                THEN CHOOSE i \in 1..Len(seq) : Rot(t, seq[i]) /\ \A j \in 1..(i - 1) : ~Rot(t, seq[j]) ELSE 0
Take(seq, t) == LET i == Find(seq, t) IN IF i = 0 THEN <<FALSE, seq>> ELSE <<TRUE, Without(seq, i)>>
RECURSIVE Same(_, _, _)
(* faces fs from number i on against the triangles left *)
Same(fs, i, left) ==
  IF i > Len(fs) THEN left = <<>>
  ELSE IF Len(fs[i]) = 3 THEN LET t == TLCEval(Take(left, fs[i])) IN t[1] /\ Same(fs, i + 1, t[2])
  ELSE \E d \in 0..1 : LET t == TLCEval(Take(left, Split(fs[i], d)[1]))
                           u == TLCEval(Take(t[2], Split(fs[i], d)[2]))
                       IN t[1] /\ u[1] /\ Same(fs, i + 1, u[2])

(* probing: a point of the plane of a face against its corners, which go
   round it one way or the other                                              *)
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Covers(vs, f, p) ==
  LET c(k) == vs[f[k] + 1]  n == Len(f)  side(k) == Cross(c(k), c((k % n) + 1), p)
  IN (\A k \in 1..n : side(k) > 0) \/ (\A k \in 1..n : side(k) < 0)

-----------------------------------------------------------------------------
(* design: all files over a palette of lines *)
CONSTANTS PLines, OLines, MaxV, MaxF, MaxP
VARIABLES p, o
MInit == p = P0 /\ o = O0
Bounded(s) == /\ s.nv <= MaxV /\ s.nf <= MaxF /\ s.vp <= MaxP /\ s.fp <= 2
MPly == \E l \in PLines : p' = PStep(p, l) /\ Bounded(p') /\ UNCHANGED o
MObj == \E l \in OLines : o' = OStep(o, l) /\ Len(o'.v) <= MaxV /\ Len(o'.f) <= MaxF /\ UNCHANGED p
(* the two readers have nothing to do with each other *)
MSpec == MInit /\ [][(o = O0 /\ MPly) \/ (p = P0 /\ MObj)]_<<p, o>>
InRange == /\ \A j \in 1..Len(p.f) : Len(p.f[j]) \in {3, 4} /\ \A c \in 1..Len(p.f[j]) : p.f[j][c] \in 0..(p.nv - 1)
           /\ OAccept(o) => \A j \in 1..Len(o.f) : \A c \in 1..Len(o.f[j].i) : o.f[j].i[c] + 1 \in DOMAIN o.v
Whole == /\ Len(p.v) <= p.nv /\ Len(p.f) <= p.nf
         /\ (PAccept(p) => Len(p.v) = p.nv /\ Len(p.f) = p.nf)
         /\ (p.ph = "face" => Len(p.v) = p.nv)
(* quadrilaterals may be cut along either diagonal, and only along those *)
RECURSIVE Cut(_, _, _)
Cut(fs, i, d) == IF i > Len(fs) THEN <<>> ELSE (IF Len(fs[i]) = 3 THEN <<fs[i]>> ELSE Split(fs[i], d)) \o Cut(fs, i + 1, d)
Distinct(t) == Cardinality({t[c] : c \in 1..Len(t)}) = Len(t)
Covered == PAccept(p) => /\ \A d \in 0..1 : Same(p.f, 1, Cut(p.f, 1, d))
                         /\ (p.f # <<>> => ~Same(p.f, 1, Tail(Cut(p.f, 1, 0))))
                         /\ (p.f # <<>> /\ Distinct(p.f[1]) =>
                               LET t == Cut(p.f, 1, 0)[1] IN ~Same(p.f, 1, <<<<t[2], t[1], t[3]>>>> \o Tail(Cut(p.f, 1, 0))))
(* an error stays; what was read stays; a line that is skipped changes nothing *)
Monotone == [][/\ (p.ph = "error" => p' = p) /\ (o.ph = "error" => o' = o)
               /\ (p.ph = "done" => p'.v = p.v /\ p'.f = p.f /\ p'.ph = "done")
               /\ SubSeq(p'.v, 1, Len(p.v)) = p.v /\ SubSeq(p'.f, 1, Len(p.f)) = p.f
               /\ (p'.loose \/ ~p.loose)]_<<p, o>>
Skips == /\ p.ph = "header" => PStep(p, <<Wd("comment"), Junk>>) = p
         /\ OStep(o, <<Hash, Junk>>) = o /\ OStep(o, <<>>) = o
(* every bad line that can come next is an error *)
Strict == /\ p.ph = "vertex" => \A l \in {<<>>, <<In(1), In(2)>>, <<In(1), Junk, In(2)>>, <<NaN, In(1), In(1)>>} : PStep(p, l).ph = "error"
          /\ p.ph = "face" => \A l \in {<<>>, <<In(3)>>, <<In(2), In(0), In(0)>>, <<In(5), In(0), In(0), In(0), In(0), In(0)>>,
                                        <<In(3), In(0), In(0), In(p.nv)>>, <<In(3), In(-1), In(0), In(0)>>, <<In(4), In(0), In(0), In(0)>>} : PStep(p, l).ph = "error"
=============================================================================
