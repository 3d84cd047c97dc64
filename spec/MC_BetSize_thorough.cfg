SPECIFICATION Spec
CONSTANTS Den = 20
          MaxRows = 2
          Ks = {2, 3, 4, 5}
INVARIANTS ZeroAtChance Monotone SignBlind RowLocal Emit
CHECK_DEADLOCK FALSE
