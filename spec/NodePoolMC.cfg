SPECIFICATION Spec
CONSTANTS
 Limit = 5
 Contents = {1, 2}
INVARIANTS FreeOnes Holds Counts NextPlace
CHECK_DEADLOCK FALSE
