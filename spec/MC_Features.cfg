SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Kinds <- AllKinds
          Every = 2
INVARIANTS WindowIsExact ExponentialIsWeightedMean WindowOnly VpinInUnit ConstantIsNeutral LocalMaxAtLeastOne Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
