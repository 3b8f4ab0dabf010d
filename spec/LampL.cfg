SPECIFICATION LSpec
CONSTANTS Lamps <- LLamps
 Ops <- LOps
 Points <- LPoints
 Targets <- LTargets
 MaxOps = 3
INVARIANTS RoundTrip Agree Fall Total
PROPERTY Covariant
CHECK_DEADLOCK FALSE
