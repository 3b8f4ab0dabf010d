SPECIFICATION GSpec
CONSTANTS PLines = {}
 OLines = {}
 MaxV = 0
 MaxF = 0
 MaxP = 0
CHECK_DEADLOCK FALSE
