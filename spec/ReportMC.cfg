SPECIFICATION Spec
CONSTANTS
 BW = 2
 MaxCost = 2
 MaxCtx = 2
 Depth = 4
INVARIANTS Totals Types Symbols Blocks
CHECK_DEADLOCK FALSE
