SPECIFICATION TSpec
INVARIANT MatrixDeclarative
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
