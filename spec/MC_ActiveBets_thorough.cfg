SPECIFICATION Spec
CONSTANTS NumBets = 4
          Starts = {1, 2, 3}
          Ends = {0, 2, 3, 4}
          Sizes = {0, 6}
INVARIANTS ActiveDeclarative OneRowPerTime BoundedMean Emit
CHECK_DEADLOCK FALSE
