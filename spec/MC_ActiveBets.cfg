SPECIFICATION Spec
CONSTANTS NumBets = 3
          Starts = {1, 2, 3}
          Ends = {0, 1, 2, 3, 4}
          Sizes = {0, 3, 6}
INVARIANTS ActiveDeclarative OneRowPerTime BoundedMean Emit
CHECK_DEADLOCK FALSE
