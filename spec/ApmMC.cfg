SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS ScaleOk FreshOk RefineOk UpdateOk
CHECK_DEADLOCK FALSE
