SPECIFICATION Spec
CONSTANT MaxDim = 7
INVARIANTS Injective SamePitch Centred InSquare
CHECK_DEADLOCK FALSE
