SPECIFICATION Spec
CONSTANTS MaxLen = 8
          Levels = {1, 2, 3}
          Kind = "conf"
          Every = 5
INVARIANTS EmaIsWeightedSum EmaWithinRange RsiBounded RsiExtremes WarmUpIsSilent FlatNeverTrades ConfDecl MacdTelescopes Emit
PROPERTY NeverRevised
CHECK_DEADLOCK FALSE
