SPECIFICATION TSpec
INVARIANT WellFormed
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
