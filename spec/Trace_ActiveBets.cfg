SPECIFICATION TSpec
INVARIANT OneRowPerTime
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
