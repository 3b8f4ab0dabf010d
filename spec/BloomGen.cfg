SPECIFICATION GSpec
CONSTANTS Values = {}
 Kernels = {}
 Thrs = {}
 W = 0
 H = 0
 D = 0
CHECK_DEADLOCK FALSE
