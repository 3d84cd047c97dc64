SPECIFICATION Spec
CONSTANTS MaxLen = 6
          Closes <- C4
          Sides <- SOne
          Ns = {1, 2, 3, 4}
          Factors <- F3
INVARIANTS EndIsFirstBarrier WellFormed LabelSigns NoSideNoTouch Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
