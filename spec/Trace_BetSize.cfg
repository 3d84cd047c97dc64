SPECIFICATION TSpec
INVARIANT RowLocal
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
