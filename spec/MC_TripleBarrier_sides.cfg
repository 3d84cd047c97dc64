SPECIFICATION Spec
CONSTANTS MaxLen = 4
          Closes <- C3
          Sides <- SAll
          Ns = {1, 2, 5}
          Factors <- F2
INVARIANTS EndIsFirstBarrier WellFormed LabelSigns NoSideNoTouch Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
