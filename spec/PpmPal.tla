------------------------------- MODULE PpmPal -------------------------------
EXTENDS Ppm
PVals == {<<1, 2, 3>>, <<4, 5, 6>>, <<7, 1, 0>>}
QVals == PVals \cup {<<3, 2, 1>>, <<0, 0, 0>>, <<9, 8, 9>>, <<5, 6, 5>>}
=============================================================================
