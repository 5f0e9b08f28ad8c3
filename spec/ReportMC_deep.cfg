SPECIFICATION Spec
CONSTANTS
 BW = 2
 MaxCost = 2
 MaxCtx = 2
 Depth = 5
INVARIANTS Totals Types Symbols
CHECK_DEADLOCK FALSE
