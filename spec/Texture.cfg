SPECIFICATION TSpec
CONSTANTS Texs <- PTexs
 Coords <- SmallRange
INVARIANTS Periodic Between OnGrid Pans Alternate
CHECK_DEADLOCK FALSE
