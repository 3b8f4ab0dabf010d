SPECIFICATION Spec
CONSTANTS Ys <- PYs
 Hs <- PHs
 Slopes <- PSlopes
 Ends <- PEnds
 Ks = {0, 1, 2, 8}
INVARIANTS Formula Bounds Farther Double Unlit
CHECK_DEADLOCK FALSE
