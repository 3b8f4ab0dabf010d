SPECIFICATION GSpec
CONSTANTS Lamps = {}
 Ops = {}
 Points = {}
 Targets = {}
 MaxOps = 0
CHECK_DEADLOCK FALSE
