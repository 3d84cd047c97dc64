SPECIFICATION Spec
CONSTANTS Vals = {1, 2, 3}
          Cfgs <- CT
          Every = 1
INVARIANTS OneResultPerTime WindowsAreAllLongEnough NothingLater RowsUseThePast SupIsAttained Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
