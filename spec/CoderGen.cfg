SPECIFICATION Spec
CONSTANTS
 B = 8
 W = 31
 P = 23
 Depth = 60
INVARIANT Emit
CHECK_DEADLOCK FALSE
