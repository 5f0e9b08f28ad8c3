SPECIFICATION Spec
INVARIANTS NoPanic Accurate Symmetric Monotone ThereAndBack
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
