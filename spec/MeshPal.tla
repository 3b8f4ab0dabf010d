------------------------------- MODULE MeshPal -------------------------------
EXTENDS MeshFile
El(x, n) == <<Wd("element"), Wd(x), In(n)>>
Pr(x) == <<Wd("property"), Wd("float"), Wd(x)>>
Lst == <<Wd("property"), Wd("list"), Wd("uchar"), Wd("int"), Wd("vertex_indices")>>
End == <<Wd("end_header")>>
Fmt == <<Wd("format"), Wd("ascii"), Wd("1.0")>>
LPLines == {<<>>, <<Wd("ply")>>, Fmt, <<Wd("format"), Wd("binary_little_endian"), Wd("1.0")>>, <<Wd("comment"), Wd("element"), Wd("vertex"), In(9)>>,
   El("vertex", 1), El("vertex", 3), El("vertex", 4), El("vertex", -1), <<Wd("element"), Wd("vertex"), Junk>>, <<Wd("element"), Wd("vertex")>>,
   El("face", 0), El("face", 1), El("face", 2), El("edge", 1), Pr("x"), Pr("y"), Pr("z"), Pr("nx"), Lst, End, <<Wd("end")>>,
   <<In(1), In(2), Fl(500)>>, <<Fl(-1250), In(0), In(7), In(5)>>, <<In(1), In(2)>>, <<In(1), Junk, In(3)>>, <<In(1), In(2), NaN>>,
   <<In(3), In(0), In(1), In(2)>>, <<In(4), In(3), In(1), In(0), In(2)>>, <<In(3), In(0), In(1), In(3)>>, <<In(3), In(0), In(1), In(4)>>,
   <<In(3), In(0), In(-1), In(2)>>, <<In(3), In(0), Fl(1000), In(2)>>, <<In(4), In(0), In(1), In(2)>>, <<In(2), In(0), In(1)>>,
   <<In(5), In(0), In(1), In(2), In(3), In(0)>>, <<Fl(3000), In(0), In(1), In(2)>>, <<In(3), In(2), In(1), In(0), In(9)>>}
F(m, t) == <<Wd("f")>> \o t
LOLines == {<<>>, <<Hash, Junk>>, <<[k |-> "c", s |-> "#v", v |-> 0], In(1)>>, <<Wd("usemtl"), Wd("red")>>, <<Wd("usemtl"), Wd("blue")>>, <<Wd("usemtl")>>,
   <<Wd("usemtl"), Wd("red"), Wd("blue")>>, <<Wd("g"), Wd("x")>>, <<Wd("vn"), In(1), In(0), In(0)>>, <<Wd("foo"), In(1)>>,
   <<Wd("v"), In(1), In(2), Fl(3500)>>, <<Wd("v"), Fl(-250), In(0), In(1), In(1)>>, <<Wd("v"), In(1), In(2)>>, <<Wd("v"), In(1), Junk, In(2)>>,
   <<Wd("v"), NaN, In(1), In(2)>>, <<Wd("v"), In(1), In(2), In(3), In(4), In(5)>>, <<In(1), In(2), In(3)>>,
   F("", <<In(1), In(2), In(3)>>), F("", <<In(3), In(1), In(2), In(4)>>), F("", <<Sl(2), Sl(1), Sl(3)>>), F("", <<In(1), In(2), In(5)>>),
   F("", <<In(0), In(1), In(2)>>), F("", <<In(-1), In(1), In(2)>>), F("", <<In(1), In(2)>>), F("", <<In(1), In(2), In(3), In(1), In(2)>>), F("", <<In(1), Fl(2000), In(3)>>)}
=============================================================================
