SPECIFICATION Spec
CONSTANT Depth = 7
INVARIANTS Bounded Settles
CHECK_DEADLOCK FALSE
