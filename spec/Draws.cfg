SPECIFICATION Spec
CONSTANTS NPix = 3
 Workers = {w1, w2}
 MaxTotal = 3
 Ks = {1, 2, 3}
INVARIANTS Reproducible Complete
CHECK_DEADLOCK FALSE
