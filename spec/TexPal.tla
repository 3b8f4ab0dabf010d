------------------------------- MODULE TexPal -------------------------------
EXTENDS Texture
Img(r, l) == [k |-> "img", rows |-> r, lin |-> l]
I1 == Img(<<<<<<10, 200, 0>>, <<255, 0, 30>>, <<7, 90, 255>>>>, <<<<0, 0, 0>>, <<100, 150, 200>>, <<255, 255, 255>>>>>>, 1)
I2 == Img(<<<<<<10, 200, 0>>>>>>, 0)
I3 == Img(<<<<<<0, 20, 40>>, <<60, 80, 100>>>>, <<<<120, 140, 160>>, <<180, 200, 220>>>>, <<<<5, 5, 5>>, <<6, 250, 128>>>>>>, 0)
I4 == Img(<<<<<<9, 8, 7>>, <<6, 5, 4>>, <<3, 2, 1>>, <<30, 20, 10>>, <<200, 100, 50>>>>>>, 1)
Col(a) == [k |-> "col", c |-> <<a, a, a>>]
Pt == [k |-> "pt"]
Check(a, b, pu, pv) == [k |-> "check", a |-> a, b |-> b, pu |-> pu, pv |-> pv]
Grid(a, b, w, pu, pv) == [k |-> "grid", a |-> a, b |-> b, wd |-> w, pu |-> pu, pv |-> pv]
Leaves == {I1, I2, I3, I4, Col(5000), Pt}
Ops(t) == {[k |-> "pan", t |-> t, du |-> 40, dv |-> -300], [k |-> "scale", t |-> t, n |-> <<1, 2>>, d |-> <<2, 1>>],
           [k |-> "scale", t |-> t, n |-> <<2, 1>>, d |-> <<1, 1>>],
           Check(t, Col(2000), 2, 4), Check(Col(0), t, 1, 6), Grid(t, Col(9000), 16, 2, 1), Grid(Col(1), t, 8, 1, 4)}
PTexs == Leaves \cup UNION {Ops(t) : t \in Leaves}
LTexs == PTexs \cup UNION {UNION {Ops(s) : s \in Ops(t)} : t \in Leaves}
SmallRange == {-600, -512, -300, -257, -256, -255, -128, -3, 0, 5, 64, 128, 200, 255, 256, 300}
BigRange == {-600, -77, 0, 64, 200} \cup {4 * i : i \in -70..70}
=============================================================================
