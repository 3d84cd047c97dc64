SPECIFICATION Spec
CONSTANTS MaxN = 8
          MaxJobs = 4
          MaxFits = 3
INVARIANT SameMembers
PROPERTY NeverReordered
CHECK_DEADLOCK FALSE
