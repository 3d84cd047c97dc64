SPECIFICATION Spec
CONSTANTS MaxLen = 8
          Vals = {0, 1, 2, 4}
          Cfgs <- CT
          Every = 11
INVARIANTS Resolved BestIsMaximal DependsOnWindowOnly LinesAreCertain Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
