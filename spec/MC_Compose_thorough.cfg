SPECIFICATION Spec
CONSTANTS MaxOps = 4
 Depth = 2
INVARIANTS Laws Forgets WeightOK Emit
PROPERTY OnlyFitLearns
CHECK_DEADLOCK FALSE
