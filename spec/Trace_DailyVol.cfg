SPECIFICATION TSpec
INVARIANT OnlyPast
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
