SPECIFICATION Spec
CONSTANTS Kinds <- PKinds
 Turns <- PTurns
 Moves <- PMoves
 MaxCams = 4
INVARIANTS Rotations Independent UnitRays Straight
PROPERTY Older
CHECK_DEADLOCK FALSE
