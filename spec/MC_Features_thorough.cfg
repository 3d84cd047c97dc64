SPECIFICATION Spec
CONSTANTS MaxLen = 6
          Kinds <- AllKinds
          Every = 7
INVARIANTS WindowIsExact ExponentialIsWeightedMean WindowOnly VpinInUnit ConstantIsNeutral LocalMaxAtLeastOne Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
