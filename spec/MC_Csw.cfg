SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Vals = {1, 2, 3, 5}
          Ms = {1, 2}
          Every = 1
INVARIANTS SumOfSquares EachTimeOnce SupremumOverAllEarlier TwoSidedIsNonnegative Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
