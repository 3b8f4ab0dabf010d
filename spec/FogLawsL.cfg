SPECIFICATION Spec
CONSTANTS Ys <- LYs
 Hs <- LHs
 Slopes <- LSlopes
 Ends <- PEnds
 Ks = {0, 1, 2, 8}
INVARIANTS Formula Bounds Farther Double Unlit
CHECK_DEADLOCK FALSE
