SPECIFICATION Spec
INVARIANTS NoPanic Exact
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
