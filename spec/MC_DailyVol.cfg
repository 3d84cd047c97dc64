SPECIFICATION Spec
CONSTANTS Day = 4
          MaxLen = 6
          Gaps = {1, 2, 4, 5}
INVARIANTS RefsDeclarative OnlyPast Suffix Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
