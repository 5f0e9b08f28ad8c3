SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Bounded RateBound MixBounded Improves Fresh
CHECK_DEADLOCK FALSE
