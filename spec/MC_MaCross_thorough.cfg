SPECIFICATION Spec
CONSTANTS MaxLen = 7
          Hole = 99
          Vals = {0, 1, 2, 99}
          Pairs <- PT
INVARIANTS CrossDeclarative FillHolds Alternates Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
