SPECIFICATION Spec
CONSTANTS MaxLen = 7
          Vals = {0, 1, 2}
          Cfgs <- CQ
          Every = 1
INVARIANTS Resolved BestIsMaximal DependsOnWindowOnly LinesAreCertain Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
