SPECIFICATION Spec
INVARIANTS NoPanic TextDefinesReports
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
