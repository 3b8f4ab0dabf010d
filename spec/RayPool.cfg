SPECIFICATION Spec
CONSTANTS Rays = {1, 2, 3}
 MaxLevel = 3
 MaxOps = 6
INVARIANTS Kept Apart Owned Balanced
CHECK_DEADLOCK FALSE
