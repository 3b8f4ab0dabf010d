CONSTANTS
  W = 3
  H = 3
  Tile = 2
  Workers = {1, 2, 3}
  Ks = {1, 2}
  MaxTotal = 2
SPECIFICATION Spec
INVARIANTS ExactAtReturn Exclusive Partition VarNonNegative
PROPERTY Refines
CHECK_DEADLOCK FALSE
