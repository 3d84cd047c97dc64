SPECIFICATION Spec
CONSTANTS MaxLen = 6
          Levels = {1, 2}
          Kind = "arr"
          Every = 7
INVARIANTS EmaIsWeightedSum EmaWithinRange RsiBounded RsiExtremes WarmUpIsSilent FlatNeverTrades ConfDecl MacdTelescopes Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
