SPECIFICATION GSpec
CONSTANTS Ys = {}
 Hs = {}
 Slopes = {}
 Ends = {}
 Ks = {}
CHECK_DEADLOCK FALSE
