SPECIFICATION Spec
ALIAS Place
INVARIANTS NoPanic Complete Snapshots Program Large LargeSnapshots
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
