SPECIFICATION Spec
CONSTANTS
 BW = 1
 Cap = 3
 NewStats <- MCNew
 UpdStats <- MCUpd
 MaxW = 6
 MaxMo = 4
 MaxBytes = 14
INVARIANTS NodesAreBranching UniformText Counted NodesFirst WindowOnly AllOrders LastsAreLast CountsPositive Definition
PROPERTY Persistence
CHECK_DEADLOCK FALSE
