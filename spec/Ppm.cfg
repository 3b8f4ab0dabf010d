SPECIFICATION PSpec
CONSTANTS Vals <- PVals
 MaxW = 2
 MaxH = 2
INVARIANT Faithful
CHECK_DEADLOCK FALSE
