SPECIFICATION DSpec
CONSTANTS Values <- QValues
 Kernels <- PKernels
 Thrs <- PThrs
 W = 3
 H = 2
 D = 0
INVARIANTS SameResult Conserved Dark
CHECK_DEADLOCK FALSE
