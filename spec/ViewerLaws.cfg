SPECIFICATION LSpec
CONSTANT Depth = 3
INVARIANTS Upright StepLength Reversible Cycle Toggle UpIsUp
CHECK_DEADLOCK FALSE
