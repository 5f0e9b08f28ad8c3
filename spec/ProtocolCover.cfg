SPECIFICATION CoverSpec
CONSTANT Depth = 0
VIEW CoverView
INVARIANT Alive
CHECK_DEADLOCK FALSE
