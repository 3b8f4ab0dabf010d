------------------------------ MODULE BloomPal ------------------------------
EXTENDS Bloom
A == <<1, 0, 2>>  B == <<0, 3, 0>>  Z == <<0, 0, 0>>  U == <<1, 1, 1>>
PKernels == {<<<<U>>>>, <<<<A, B, U>>>>, <<<<A>>, <<B>>>>, <<<<B, A>>>>, <<<<Z, A, Z>>, <<B, U, A>>, <<U, Z, B>>>>, <<<<A, B>>, <<U, Z>>>>}
PValues == {<<0, 0, 0>>, <<1, 2, 3>>, <<4, 1, 0>>}
QValues == PValues \cup {<<2, 2, 2>>}
PThrs == {0, 1, 3}
=============================================================================
