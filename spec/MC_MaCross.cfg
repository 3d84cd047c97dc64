SPECIFICATION Spec
CONSTANTS MaxLen = 6
          Hole = 99
          Vals = {0, 1, 2, 99}
          Pairs <- PQ
INVARIANTS CrossDeclarative FillHolds Alternates Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
