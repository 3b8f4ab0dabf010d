SPECIFICATION GSpec
CONSTANTS Kinds = {}
 Turns = {}
 Moves = {}
 MaxCams = 0
 Specs = {}
 ViewSet = {}
 MaxSpecs = 0
CHECK_DEADLOCK FALSE
