SPECIFICATION Spec
CONSTANTS Views = {1, 2}
 MaxPass = 8
INVARIANTS Counts Grows
PROPERTY NeverStuck
CHECK_DEADLOCK FALSE
