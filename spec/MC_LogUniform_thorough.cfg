SPECIFICATION Spec
CONSTANTS Grain = 4
          Span = 6
          MaxObj = 2
          MaxAsk = 2
INVARIANTS Monotone Whole EvenMass Inverse UnitBlind Reciprocal Narrowed OwnRange Emit
CHECK_DEADLOCK FALSE
