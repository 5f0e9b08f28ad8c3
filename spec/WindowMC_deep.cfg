SPECIFICATION Spec
CONSTANTS
 BW = 2
 MaxSize = 4
 MaxSteps = 12
INVARIANTS Implements Naming Comparing Blocks
CHECK_DEADLOCK FALSE
