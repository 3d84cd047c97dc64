SPECIFICATION Spec
CONSTANTS Rows = 3
          Members = 2
          Draws = 2
INVARIANTS Shape Emit
CHECK_DEADLOCK FALSE
