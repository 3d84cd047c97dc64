SPECIFICATION Spec
CONSTANTS MaxOdd = 3
 MaxCall = 2
INVARIANTS Grown Emit
PROPERTY RefusalsLeaveNoTrace
CHECK_DEADLOCK FALSE
