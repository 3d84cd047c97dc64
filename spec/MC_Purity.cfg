SPECIFICATION Spec
CONSTANTS MaxObj = 2
 MaxCall = 2
 Hows = 1
 Every = 7
INVARIANTS AgreeExact IdealFits FitsAll Emit
CHECK_DEADLOCK FALSE
