SPECIFICATION Spec
CONSTANTS Vals = {1, 2, 4}
          Cfgs <- CQ
          Every = 1
INVARIANTS OneResultPerTime WindowsAreAllLongEnough NothingLater RowsUseThePast SupIsAttained Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
