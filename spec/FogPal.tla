------------------------------ MODULE FogPal ------------------------------
EXTENDS FogLaws
PSlopes == {<<0, 1>>, <<1, 1>>, <<-1, 1>>, <<4, 5>>, <<-3, 5>>, <<1, 3>>, <<-2, 7>>}
PEnds == {1, 8, 21, 64, INF}
PYs == {-12, -1, 0, 3, 16}
PHs == {-8, 0, 5, 16, INF}
LYs == -16..16
LHs == {-16, -8, -3, 0, 1, 5, 16, INF}
LSlopes == PSlopes \cup {<<3, 7>>, <<6, 7>>, <<-6, 7>>, <<12, 13>>, <<-5, 13>>, <<-4, 5>>, <<-1, 3>>}
=============================================================================
