SPECIFICATION Spec
CONSTANTS
 MaxDims = 4
 MaxLimit = 3
INVARIANTS Bijective Ordered
CHECK_DEADLOCK FALSE
