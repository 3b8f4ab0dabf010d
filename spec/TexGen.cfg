SPECIFICATION GSpec
CONSTANTS Texs = {}
 Coords = {}
CHECK_DEADLOCK FALSE
