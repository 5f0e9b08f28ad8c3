SPECIFICATION Spec
INVARIANT Exact
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
