SPECIFICATION Spec
CONSTANTS Slots = 6
          Vals = {0, 1, 5, 99}
INVARIANTS AlignedDeclarative Bounded UndefinedOnlyFirst Emit
PROPERTIES NeverRevised
CHECK_DEADLOCK FALSE
