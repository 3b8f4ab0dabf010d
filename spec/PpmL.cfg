SPECIFICATION PSpec
CONSTANTS Vals <- QVals
 MaxW = 2
 MaxH = 2
INVARIANT Faithful
CHECK_DEADLOCK FALSE
