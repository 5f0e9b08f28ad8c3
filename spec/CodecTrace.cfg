SPECIFICATION Spec
ALIAS Place
CONSTANTS
 B = 8
 W = 31
 P = 23
INVARIANTS NoPanic Valid Deterministic Causal RoundTrip Long
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
