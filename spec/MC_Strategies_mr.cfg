SPECIFICATION Spec
CONSTANTS MaxLen = 7
          Levels = {1, 2, 3}
          Kind = "mr"
          Every = 1
INVARIANTS EmaIsWeightedSum EmaWithinRange RsiBounded RsiExtremes WarmUpIsSilent FlatNeverTrades ConfDecl MacdTelescopes Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
