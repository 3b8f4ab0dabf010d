SPECIFICATION TSpec
CONSTANTS Texs <- PTexs
 Coords <- BigRange
INVARIANTS Periodic Between OnGrid Pans Alternate
CHECK_DEADLOCK FALSE
