SPECIFICATION Spec
CONSTANTS MaxN = 6
          MaxJobs = 4
          MaxFits = 3
INVARIANT SameMembers
PROPERTY NeverReordered
CHECK_DEADLOCK FALSE
