SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Levels = {1, 2}
          Kind = "arr"
          Every = 4
INVARIANTS EmaIsWeightedSum EmaWithinRange RsiBounded RsiExtremes WarmUpIsSilent FlatNeverTrades ConfDecl MacdTelescopes Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
