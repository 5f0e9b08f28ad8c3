SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Bounded RateBound MixBounded Improves Fresh
CHECK_DEADLOCK FALSE
