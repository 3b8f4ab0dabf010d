SPECIFICATION Spec
CONSTANTS Bases = {2, 3, 5, 7, 11, 13}
 MaxK = 7
 Blocks = 3
 Lim = 20000
INVARIANTS Stratified Distinct ShiftEven
CHECK_DEADLOCK FALSE
