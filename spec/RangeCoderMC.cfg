SPECIFICATION Spec
CONSTANTS B = 2  W = 5  P = 3  MaxOps = 4
INVARIANTS RoundTrip DelayedIsExact Nested Bounded
CHECK_DEADLOCK FALSE
