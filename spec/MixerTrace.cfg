SPECIFICATION Spec
INVARIANTS NoPanic Started Exact
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
