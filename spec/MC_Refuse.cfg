SPECIFICATION Spec
CONSTANTS MaxOdd = 2
 MaxCall = 2
INVARIANTS Grown Emit
PROPERTY RefusalsLeaveNoTrace
CHECK_DEADLOCK FALSE
