SPECIFICATION Spec
ALIAS Place
INVARIANTS NoPanic AllBytes Listing
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
