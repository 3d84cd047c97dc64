SPECIFICATION Spec
CONSTANTS NEv = 4
          MaxEnd = 9
          Logs = {0, 1, 3}
INVARIANTS MatrixDeclarative GridDeclarative UniqueIffAlone DecayOk Emit
CHECK_DEADLOCK FALSE
