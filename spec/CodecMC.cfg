SPECIFICATION Spec
CONSTANTS
 B = 2
 W = 6
 P = 3
 MaxBits = 5
 Leak = FALSE
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
