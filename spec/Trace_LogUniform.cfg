SPECIFICATION TSpec
CONSTANT Grain = 4
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
