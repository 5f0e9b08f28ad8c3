SPECIFICATION Spec
INVARIANTS Tables StretchOk SquashOk
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
