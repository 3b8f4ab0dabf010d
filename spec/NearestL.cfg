SPECIFICATION Spec
CONSTANTS N = 4
 T = 2
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
