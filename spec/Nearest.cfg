SPECIFICATION Spec
CONSTANTS N = 3
 T = 2
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
