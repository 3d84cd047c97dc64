SPECIFICATION Spec
CONSTANTS MaxOps = 2
 Depth = 2
INVARIANTS Laws Forgets WeightOK Emit
PROPERTY OnlyFitLearns
CHECK_DEADLOCK FALSE
