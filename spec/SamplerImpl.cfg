CONSTANTS
  W = 3
  H = 2
  Tile = 2
  Workers = {1, 2}
  Ks = {0, 1, 2}
  MaxTotal = 2
SPECIFICATION Spec
INVARIANTS ExactAtReturn Exclusive Partition MeanInRange VarNonNegative
PROPERTY Refines
CHECK_DEADLOCK FALSE
