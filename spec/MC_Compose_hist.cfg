SPECIFICATION Spec
CONSTANTS MaxOps = 4
 Depth = 1
INVARIANTS Laws Forgets WeightOK Emit
PROPERTY OnlyFitLearns
CHECK_DEADLOCK FALSE
