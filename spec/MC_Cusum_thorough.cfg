SPECIFICATION Spec
CONSTANTS MaxLen = 8
          MaxVal = 3
          Thresholds = {0, 1, 2, 3}
INVARIANTS Shape Bounded SelIsDeclarative Emit
PROPERTY PrefixClosed
CHECK_DEADLOCK FALSE
