SPECIFICATION VSpec
CONSTANTS MaxEv = 3
MaxBakes = 4
MaxFails = 1
INVARIANTS Fine QuietFine OneBake Shows
CHECK_DEADLOCK FALSE
