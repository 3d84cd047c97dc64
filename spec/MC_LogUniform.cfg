SPECIFICATION Spec
CONSTANTS Grain = 4
          Span = 4
          MaxObj = 2
          MaxAsk = 1
INVARIANTS Monotone Whole EvenMass Inverse UnitBlind Reciprocal Narrowed OwnRange Emit
CHECK_DEADLOCK FALSE
