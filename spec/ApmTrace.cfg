SPECIFICATION Spec
INVARIANTS NoPanic Sane Exact Fresh
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
