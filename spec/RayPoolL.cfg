SPECIFICATION Spec
CONSTANTS Rays = {1, 2, 3, 4}
 MaxLevel = 3
 MaxOps = 8
INVARIANTS Kept Apart Owned Balanced
CHECK_DEADLOCK FALSE
