SPECIFICATION WSpec
CONSTANTS MaxEdits = 3
INVARIANTS OnlyOne NoneWhileBuilding Newest Right Unobjected
PROPERTY Ends
CHECK_DEADLOCK FALSE
