SPECIFICATION Spec
INVARIANTS NoPanic TreeIsExact Bounded
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
