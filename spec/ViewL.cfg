SPECIFICATION VSpec
CONSTANTS Specs <- PSpecs
 ViewSet <- PViews
 MaxSpecs = 3
 Kinds = {}
 Turns = {}
 Moves = {}
 MaxCams = 0
INVARIANTS Settled Aspect Shape VTurns
PROPERTY Kept
CHECK_DEADLOCK FALSE
