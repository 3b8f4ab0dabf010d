SPECIFICATION GSpec
CONSTANTS MaxEdits = 0
CHECK_DEADLOCK FALSE
