SPECIFICATION Spec
CONSTANT N = 5
INVARIANT NearestOfTheSet
PROPERTY Terminates
CHECK_DEADLOCK FALSE
