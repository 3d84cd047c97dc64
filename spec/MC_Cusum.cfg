SPECIFICATION Spec
CONSTANTS MaxLen = 6
          MaxVal = 3
          Thresholds = {0, 1, 2}
INVARIANTS Shape Bounded SelIsDeclarative Emit
PROPERTY PrefixClosed
CHECK_DEADLOCK FALSE
