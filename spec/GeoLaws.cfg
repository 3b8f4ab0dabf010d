SPECIFICATION Spec
CONSTANT K = 0
INVARIANT Laws
CHECK_DEADLOCK FALSE
