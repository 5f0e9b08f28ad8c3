SPECIFICATION Spec
INVARIANTS NoPanic Taken Used TakenMany UsedMany Reads Counted Children Made
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
ALIAS Place
