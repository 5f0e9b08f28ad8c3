SPECIFICATION Spec
INVARIANTS NoPanic WindowDefinesContexts
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
