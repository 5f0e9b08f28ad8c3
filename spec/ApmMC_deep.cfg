SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS ScaleOk FreshOk RefineOk UpdateOk
CHECK_DEADLOCK FALSE
