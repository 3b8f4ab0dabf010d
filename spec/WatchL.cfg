SPECIFICATION WSpec
CONSTANTS MaxEdits = 5
INVARIANTS OnlyOne NoneWhileBuilding Newest Right Unobjected
PROPERTY Ends
CHECK_DEADLOCK FALSE
