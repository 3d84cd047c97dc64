SPECIFICATION Spec
CONSTANTS MaxObj = 2
 MaxCall = 3
 Hows = 1
 Every = 200
INVARIANTS AgreeExact IdealFits FitsAll Emit
CHECK_DEADLOCK FALSE
