SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS Bounded Settles
CHECK_DEADLOCK FALSE
