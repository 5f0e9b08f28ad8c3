SPECIFICATION Spec
CONSTANTS
 BW = 3
 MaxLen = 6
INVARIANTS Agree Marked
CHECK_DEADLOCK FALSE
