SPECIFICATION Spec
INVARIANTS NoPanic Updates AllHistories Starts
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
