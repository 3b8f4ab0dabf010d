------------------------------ MODULE PpmTrace ------------------------------
(* "file": an encoded image. "part": an encoding to a medium with room for
   less. "render", "anim": what a rendering left. memo: the samples seen so
   far for every channel value: one each, growing.                           *)
EXTENDS TraceBase
VARIABLE memo
P == INSTANCE Ppm WITH Vals <- {}, MaxW <- 0, MaxH <- 0, img <- 0, room <- 0, put <- 0, err <- 0
B == INSTANCE Bloom WITH Values <- {}, Kernels <- {}, Thrs <- {}, W <- 0, H <- 0, D <- 0, img <- 0, kern <- 0, thr <- 0, todo <- 0, out <- 0
Pairs(e) == {<<P!ChanAt(e.img, i), e.f.s[i]>> : i \in {i \in 1..Len(e.f.s) : P!ChanAt(e.img, i) # P!Undefined}}
Fits(m, ps) == /\ \A p \in ps : p[1] \in DOMAIN m => m[p[1]] = p[2]
               /\ \A p \in ps, q \in ps : (p[1] = q[1] => p[2] = q[2]) /\ (p[1] < q[1] => p[2] <= q[2])
               /\ \A p \in ps : \A v \in DOMAIN m : (v < p[1] => m[v] <= p[2]) /\ (v > p[1] => m[v] >= p[2])
Learn(m, ps) == [v \in DOMAIN m \cup {p[1] : p \in ps} |-> IF v \in DOMAIN m THEN m[v] ELSE (CHOOSE p \in ps : p[1] = v)[2]]
FileOk(e) == P!FileOk(e.magic, e.img, e.f)
PartOk(e) == e.err = (IF e.room < e.total THEN 1 ELSE 0)
(* linear image of a rendering with effects, n evaluations per pixel *)
RECURSIVE Effects(_, _, _)
Effects(i, es, k) == IF k > Len(es) THEN i ELSE Effects(TLCEval(B!Effect(i, es[k])), es, k + 1)
Scene(e, n) == [y \in 1..Len(e.img) |-> [x \in 1..Len(e.img[1]) |-> <<e.img[y][x][1], e.img[y][x][2], P!Rnd(10000, n)>>]]
SampleOk(v, s, tol) == Near(s, P!Curve(v), 500 + tol)
GoodFile(f, img, tol) == /\ f.w = Len(img[1]) /\ f.h = Len(img) /\ f.ok = 1
                         /\ \A i \in 1..Len(f.s) : SampleOk(P!ChanAt(img, i), f.s[i], tol)
Names(e) == {e.files[i].name : i \in 1..Len(e.files)}
FileNamed(e, n) == LET i == CHOOSE i \in 1..Len(e.files) : e.files[i].name = n IN e.files[i]
RenderOk(e) ==
  IF e.fault = 1 THEN e.exit # 0
  ELSE /\ e.exit = 0 /\ Names(e) = P!RenderFiles(e.stem, e.ext)
       /\ e.least = e.most /\ e.least >= e.np
       /\ LET img == TLCEval(Effects(TLCEval(Scene(e, e.least)), e.fx, 1)) IN
          /\ GoodFile(FileNamed(e, e.stem \o ".ppm"), img, 0) /\ FileNamed(e, e.stem \o ".ppm").magic = "P3" /\ FileNamed(e, e.stem \o ".ppm").max = 65535
          /\ Len(FileNamed(e, e.stem \o ".ppm").s) = 3 * Len(img) * Len(img[1])
          /\ GoodFile(FileNamed(e, e.stem \o e.ext), img, IF e.ext = ".png" THEN 300 ELSE 4000)
(* frame i of an animation shows the colour of frame i *)
AnimOk(e) ==
  IF e.fault = 1 THEN e.exit # 0
  ELSE /\ e.exit = 0 /\ Names(e) = P!AnimFiles(e.stem, e.n)
       /\ e.n > 0 => (e.least = e.most /\ e.least >= e.np)
       /\ \A i \in 0..(e.n - 1) : LET f == FileNamed(e, e.stem \o "-frames/" \o P!Frame(i) \o ".jpg")
                                      c == <<e.cols[i + 1][1], e.cols[i + 1][2], P!Rnd(10000, e.least)>> IN
            /\ f.ok = 1 /\ f.w = e.w /\ f.h = e.h
            /\ \A k \in 1..Len(f.s) : SampleOk(c[((k - 1) % 3) + 1], f.s[k], 2500)
       /\ e.n > 0 => LET a == FileNamed(e, e.stem \o "-frames/last.jpg")
                          b == FileNamed(e, e.stem \o "-frames/" \o P!Frame(e.n - 1) \o ".jpg") IN a.s = b.s /\ a.ok = 1
Ok(e) == CASE e.ev = "file" -> FileOk(e) /\ Fits(memo, Pairs(e))
           [] e.ev = "part" -> PartOk(e)
           [] e.ev = "render" -> RenderOk(e)
           [] e.ev = "anim" -> AnimOk(e)
           [] OTHER -> FALSE
Step == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  ok == Ok(e) IN
           /\ JStep(ok)
           /\ memo' = IF e.ev = "file" /\ ok THEN Learn(memo, Pairs(e)) ELSE memo
Spec == JInit /\ memo = <<>> /\ [][Step \/ (JDone /\ UNCHANGED memo)]_<<l, bad, memo>>
=============================================================================
