SPECIFICATION Spec
CONSTANT Depth = 10
INVARIANTS NeverCertain Mirrored Learns Bounded
CHECK_DEADLOCK FALSE
