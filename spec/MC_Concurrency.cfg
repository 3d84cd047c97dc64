SPECIFICATION Spec
CONSTANTS NEv = 3
          Starts = {1, 2, 3, 4}
          MaxEnd = 6
          BarSets <- Bs
INVARIANTS MatrixDeclarative GridDeclarative UniqueIffAlone Emit
CHECK_DEADLOCK FALSE
