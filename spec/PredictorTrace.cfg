SPECIFICATION Spec
ALIAS Place
CONSTANTS
 BW = 8
 Cap = 1000
INVARIANTS NoPanic AllBits Recalls Prediction BeforeFinal Costs MayLearn
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
