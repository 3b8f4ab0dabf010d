SPECIFICATION GSpec
CONSTANTS Kinds = {}
 Turns = {}
 Moves = {}
 MaxCams = 0
CHECK_DEADLOCK FALSE
