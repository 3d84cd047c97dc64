SPECIFICATION TSpec
INVARIANT FlagIsLatest
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
