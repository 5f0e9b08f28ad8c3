SPECIFICATION Spec
ALIAS Place
INVARIANTS NoPanic Output
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
