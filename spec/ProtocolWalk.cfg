SPECIFICATION WalkSpec
CONSTANT Depth = 40
INVARIANT Walked
CHECK_DEADLOCK FALSE
