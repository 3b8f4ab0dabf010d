SPECIFICATION LSpec
CONSTANT Depth = 4
INVARIANTS Upright StepLength Reversible Cycle Toggle UpIsUp
CHECK_DEADLOCK FALSE
