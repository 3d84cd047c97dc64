SPECIFICATION Spec
CONSTANTS MaxLen = 7
 Levels <- L2x
 Ns <- N2
 Gs <- G1
INVARIANTS NoBarShared Conserved AloneIsUnique OpenIsActive EventsSampled WonIfSideRight Parts Emit
PROPERTY Causal
CHECK_DEADLOCK FALSE
