SPECIFICATION Spec
INVARIANTS NoPanic Unfinished Previous Order1 Order2 Order3 Hash
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
