SPECIFICATION Spec
CONSTANT Depth = 15
INVARIANTS NeverCertain Mirrored Learns Bounded
CHECK_DEADLOCK FALSE
