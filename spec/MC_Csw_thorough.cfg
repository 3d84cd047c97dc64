SPECIFICATION Spec
CONSTANTS MaxLen = 6
          Vals = {1, 2, 3, 5, 6}
          Ms = {1, 2}
          Every = 3
INVARIANTS SumOfSquares EachTimeOnce SupremumOverAllEarlier TwoSidedIsNonnegative Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
