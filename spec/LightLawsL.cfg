SPECIFICATION Spec
CONSTANT R = 6
INVARIANT Laws
CHECK_DEADLOCK FALSE
