SPECIFICATION TSpec
CONSTANT Hole = 99999
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
