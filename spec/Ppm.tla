--------------------------------- MODULE Ppm ---------------------------------
(* Image files: a header, then every channel of every pixel, row by row from
   the top; and which files a rendering leaves behind. Channel values are in
   1/10000 (beyond +-100000: infinite; 200000:
   not a number), samples run from 0 to 65535.          *)
EXTENDS Tables, TLC, FiniteSets
Max == 65535
Rnd(x, d) == IF x >= 0 THEN (x + (d \div 2)) \div d ELSE -((-x + (d \div 2)) \div d)
(* the sRGB curve *)
Curve(v) == IF v <= 0 THEN 0 ELSE IF v >= 10000 THEN Max
            ELSE EncTab[(v \div 10) + 1] + Rnd((EncTab[(v \div 10) + 2] - EncTab[(v \div 10) + 1]) * (v % 10), 10)
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
Undefined == 200000  \* any sample will do
EncOk(v, s) == IF v = Undefined THEN s \in 0..Max ELSE IF v <= 0 THEN s = 0 ELSE IF v >= 10000 THEN s = Max ELSE Near(s, Curve(v), 500)
Wd(img) == IF Len(img) = 0 THEN 0 ELSE Len(img[1])
Ht(img) == Len(img)
(* sample number i (from 1) of an image *)
ChanAt(img, i) == LET p == (i - 1) \div 3 IN img[(p \div Wd(img)) + 1][(p % Wd(img)) + 1][((i - 1) % 3) + 1]
FileOk(magic, img, f) == /\ f.magic = magic /\ f.w = Wd(img) /\ f.h = Ht(img) /\ f.max = Max
                         /\ Len(f.s) = 3 * Wd(img) * Ht(img)
                         /\ \A i \in 1..Len(f.s) : EncOk(ChanAt(img, i), f.s[i])
(* file names: a name is <<stem, extension>> *)
Frame(i) == LET d(n) == ToString((i \div n) % 10) IN d(10000) \o d(1000) \o d(100) \o d(10) \o d(1)
RenderFiles(stem, ext) == {stem \o ext, stem \o ".ppm"}
AnimFiles(stem, n) == {stem \o "-frames/" \o Frame(i) \o ".jpg" : i \in 0..(n - 1)} \cup (IF n = 0 THEN {} ELSE {stem \o "-frames/last.jpg"})

-----------------------------------------------------------------------------
(* design: a writer puts out header and samples one by one on a medium which
   takes so many; a reader gets the image back iff the writer saw no error   *)
CONSTANTS Vals, MaxW, MaxH
VARIABLES img, room, put, err
HeaderOf(i) == <<Wd(i), Ht(i), Max>>
Want(i) == HeaderOf(i) \o [k \in 1..(3 * Wd(i) * Ht(i)) |-> ChanAt(i, k)]
PInit == /\ img \in UNION {[1..h -> [1..w -> Vals]] : w \in 1..MaxW, h \in 1..MaxH}
         /\ room \in 0..(3 + 3 * MaxW * MaxH) /\ put = <<>> /\ err = FALSE
PStep == /\ ~err /\ Len(put) < Len(Want(img))
         /\ IF Len(put) < room THEN put' = Append(put, Want(img)[Len(put) + 1]) /\ err' = err
            ELSE put' = put /\ err' = TRUE
         /\ UNCHANGED <<img, room>>
PSpec == PInit /\ [][PStep]_<<img, room, put, err>>
Finished == err \/ Len(put) = Len(Want(img))
Read(f) == [y \in 1..f[2] |-> [x \in 1..f[1] |-> [c \in 1..3 |-> f[3 + 3 * ((y - 1) * f[1] + x - 1) + c]]]]
Faithful == Finished => (err = (room < Len(Want(img)))) /\ (~err => Read(put) = img)
Frames == \A i \in 0..200, j \in 0..200 : i # j => Frame(i) # Frame(j)
Grows == \A v \in 1..9999 : Curve(v) <= Curve(v + 1) /\ Curve(v) > 0
ASSUME Frames
ASSUME Grows
=============================================================================
