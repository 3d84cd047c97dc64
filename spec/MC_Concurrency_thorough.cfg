SPECIFICATION Spec
CONSTANTS NEv = 4
          Starts = {1, 2, 3, 5}
          MaxEnd = 6
          BarSets <- Bs
INVARIANTS MatrixDeclarative GridDeclarative UniqueIffAlone Emit
CHECK_DEADLOCK FALSE
