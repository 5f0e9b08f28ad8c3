SPECIFICATION Spec
CONSTANTS
 BW = 2
 Cap = 3
 MaxW = 4
 MaxMo = 3
 MaxBits = 12
INVARIANTS Valid InDomain NodesFirst Bounded
PROPERTY LearnsOnce
CHECK_DEADLOCK FALSE
