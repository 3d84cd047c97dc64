SPECIFICATION Spec
CONSTANTS Den = 12
          MaxRows = 2
          Ks = {2, 3, 4}
INVARIANTS ZeroAtChance Monotone SignBlind RowLocal Emit
CHECK_DEADLOCK FALSE
