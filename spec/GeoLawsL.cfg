SPECIFICATION Spec
CONSTANT K = 1
INVARIANT Laws
CHECK_DEADLOCK FALSE
