SPECIFICATION Spec
CONSTANT Chunks = 100
INVARIANTS Table SameEstimator Evenly AllZeros
CHECK_DEADLOCK FALSE
