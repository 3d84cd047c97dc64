SPECIFICATION Spec
CONSTANTS Day = 4
          MaxLen = 7
          Gaps = {1, 2, 3, 4, 5}
INVARIANTS RefsDeclarative OnlyPast Suffix Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
