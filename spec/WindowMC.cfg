SPECIFICATION Spec
CONSTANTS
 BW = 2
 MaxSize = 3
 MaxSteps = 9
INVARIANTS Implements Naming Comparing Blocks
CHECK_DEADLOCK FALSE
