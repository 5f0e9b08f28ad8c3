SPECIFICATION Spec
ALIAS Place
CONSTANT BW = 8
INVARIANTS NoPanic Refuses Content Answered
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
