SPECIFICATION Spec
CONSTANTS
 BW = 3
 MaxLen = 5
INVARIANTS Agree Marked
CHECK_DEADLOCK FALSE
