SPECIFICATION Spec
CONSTANT N = 7
INVARIANT NearestOfTheSet
PROPERTY Terminates
CHECK_DEADLOCK FALSE
