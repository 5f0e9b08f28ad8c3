SPECIFICATION Spec
CONSTANT Bits = 7
INVARIANTS Rounds Products Floats FromFloats Partition
CHECK_DEADLOCK FALSE
