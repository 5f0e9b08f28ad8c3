SPECIFICATION Spec
INVARIANTS NoPanic Exact Uncertain Cached Rates Refused
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
