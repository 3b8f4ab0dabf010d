------------------------------ MODULE MeshTrace ------------------------------
(* "ply", "obj": the lines of a file (up to where the medium failed, if it
   did) and what reading it gave; "probe": rays down onto a built mesh         *)
EXTENDS TraceBase
T == INSTANCE MeshFile WITH PLines <- {}, OLines <- {}, MaxV <- 0, MaxF <- 0, MaxP <- 0, p <- 0, o <- 0
PlyMesh(s, e) == e.err = 0 /\ e.exact /\ e.v = s.v /\ T!Same(s.f, 1, e.f)
PlyOk(e) == LET s == TLCEval(T!PRead(T!P0, e.ls, 1)) IN
            IF ~T!PAccept(s) THEN e.err = 1
            ELSE IF s.loose THEN e.err = 1 \/ PlyMesh(s, e) ELSE PlyMesh(s, e)
Mats(fs) == {fs[j].m : j \in 1..Len(fs)}
Of(fs, m) == LET sel == SelectSeq(fs, LAMBDA f : f.m = m) IN [j \in 1..Len(sel) |-> sel[j].i]
RECURSIVE SameFaces(_, _, _)
SameFaces(fs, i, left) == IF i > Len(fs) THEN left = <<>>
                          ELSE LET t == TLCEval(T!Take(left, fs[i])) IN t[1] /\ SameFaces(fs, i + 1, t[2])
ObjMesh(s, e) == /\ e.err = 0 /\ e.exact /\ e.v = s.v /\ Mats(s.f) = Mats(e.f)
                 /\ \A m \in Mats(s.f) : SameFaces(TLCEval(Of(s.f, m)), 1, TLCEval(Of(e.f, m)))
ObjOk(e) == LET s == TLCEval(T!ORead(T!O0, e.ls, 1)) IN
            IF ~T!OAccept(s) THEN e.err = 1
            ELSE IF s.loose \/ e.long THEN e.err = 1 \/ ObjMesh(s, e) ELSE ObjMesh(s, e)
(* what is no file gives an error and no mesh *)
MediumOk(e) == e.err = <<1, 1>> /\ e.n = 0
(* each probe is inside at most one face and on no edge; col: number of the
   material seen, 0 for none                                                  *)
Seen(e, fs, q) == IF \E j \in 1..Len(fs) : T!Covers(e.v, fs[j].i, q) THEN (CHOOSE j \in 1..Len(fs) : T!Covers(e.v, fs[j].i, q)) ELSE 0
ProbeOk(e) == \A i \in 1..Len(e.q) : LET j == Seen(e, e.fs, e.q[i]) IN e.col[i] = (IF j = 0 THEN 0 ELSE e.fs[j].m)
(* a large regular grid: corner i at (i % w, i / w), two triangles per cell *)
Corner(e, i) == <<i, 1000 * (i % e.w), 1000 * (i \div e.w), 0>>
Tri(e, j) == LET k == j \div 2  c == (k \div (e.w - 1)) * e.w + (k % (e.w - 1)) IN
             IF j % 2 = 0 THEN <<j, c, c + 1, c + e.w + 1>> ELSE <<j, c, c + e.w + 1, c + e.w>>
BigOk(e) == /\ e.err = 0 /\ e.nv = e.w * e.h /\ e.nf = 2 * (e.w - 1) * (e.h - 1)
            /\ \A i \in 1..Len(e.v) : e.v[i] = Corner(e, e.v[i][1])
            /\ \A i \in 1..Len(e.f) : e.f[i] = Tri(e, e.f[i][1])
            /\ \A i \in 1..Len(e.q) : LET x == e.q[i][1]  y == e.q[i][2] IN
                 IF x > 0 /\ y > 0 /\ x < 8 * (e.w - 1) /\ y < 8 * (e.h - 1) THEN e.q[i][3] = 5000 ELSE e.q[i][3] = 0
Ok(e) == CASE e.ev = "big" -> BigOk(e)
           [] e.ev = "ply" -> PlyOk(e)
           [] e.ev = "obj" -> ObjOk(e)
           [] e.ev = "medium" -> MediumOk(e)
           [] e.ev = "probe" -> ProbeOk(e)
           [] OTHER -> FALSE
Next == JNext(l <= Len(Trace) /\ Ok(Trace[l]))
Spec == JInit /\ [][Next]_<<l, bad>>
=============================================================================
