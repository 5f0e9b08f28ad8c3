SPECIFICATION Spec
INVARIANTS NoPanic Sizes HugeSizes AllOfThem Combined Quantized QuantizedShape QuantizedEnds
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
