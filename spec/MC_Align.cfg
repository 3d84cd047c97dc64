SPECIFICATION Spec
CONSTANTS Slots = 5
          Vals = {0, 1, 5, 99}
INVARIANTS AlignedDeclarative Bounded UndefinedOnlyFirst Emit
PROPERTIES NeverRevised
CHECK_DEADLOCK FALSE
