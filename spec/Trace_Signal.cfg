SPECIFICATION TSpec
CONSTANT NoY = 9
INVARIANT SignalIsLocal
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
