SPECIFICATION TSpec
INVARIANTS NoBarShared AloneIsUnique OpenIsActive EventsSampled WonIfSideRight
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
