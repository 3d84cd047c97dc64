SPECIFICATION Spec
CONSTANTS MaxLen = 9
 Levels <- L2x
 Ns <- N3
 Gs <- G2
INVARIANTS NoBarShared Conserved AloneIsUnique OpenIsActive EventsSampled WonIfSideRight Parts Emit
PROPERTY Causal
CHECK_DEADLOCK FALSE
