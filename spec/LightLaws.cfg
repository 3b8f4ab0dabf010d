SPECIFICATION Spec
CONSTANT R = 3
INVARIANT Laws
CHECK_DEADLOCK FALSE
