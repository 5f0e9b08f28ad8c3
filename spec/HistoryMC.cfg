SPECIFICATION Spec
CONSTANTS
 BW = 2
 Cap = 3
 NewStats <- MCNew
 UpdStats <- MCUpd
 MaxW = 4
 MaxMo = 3
 MaxBytes = 6
INVARIANTS NodesAreBranching UniformText Counted NodesFirst WindowOnly AllOrders LastsAreLast CountsPositive Definition
PROPERTY Persistence
CHECK_DEADLOCK FALSE
