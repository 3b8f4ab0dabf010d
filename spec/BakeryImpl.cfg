SPECIFICATION Spec
CONSTANTS Views = {1, 2}
 Bad = {7}
 Clients = {1, 2}
 MaxPass = 8
 MaxReq = 5
INVARIANTS OneBake BusyIffBaking Counts Grows RightView
PROPERTY Released
CHECK_DEADLOCK FALSE
