SPECIFICATION Spec
ALIAS Place
VIEW View
INVARIANTS NoPanic Table Counts Total Sums
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
