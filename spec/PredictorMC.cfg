SPECIFICATION Spec
CONSTANTS
 BW = 2
 Cap = 3
 MaxW = 3
 MaxMo = 2
 MaxBits = 9
INVARIANTS Valid InDomain NodesFirst Bounded
PROPERTY LearnsOnce
CHECK_DEADLOCK FALSE
