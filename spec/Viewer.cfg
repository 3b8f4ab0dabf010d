SPECIFICATION VSpec
CONSTANTS MaxEv = 2
MaxBakes = 2
MaxFails = 1
INVARIANTS Fine QuietFine OneBake Shows
PROPERTIES GoesOn EndsQuiet
CHECK_DEADLOCK FALSE
