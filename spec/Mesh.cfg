SPECIFICATION MSpec
CONSTANTS PLines <- LPLines
 OLines <- LOLines
 MaxV = 4
 MaxF = 1
 MaxP = 4
INVARIANTS InRange Whole Covered Skips Strict
PROPERTY Monotone
CHECK_DEADLOCK FALSE
