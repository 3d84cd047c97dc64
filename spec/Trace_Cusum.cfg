SPECIFICATION TSpec
INVARIANT TShape
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
