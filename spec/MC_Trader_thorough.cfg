SPECIFICATION Spec
CONSTANTS MaxCalls = 3
          Ops = {"signal", "bars", "position", "close"}
          Closes <- ClosesT
INVARIANTS FlagIsLatest Repeatable PositionJoinsSignalAndBars Emit
PROPERTY DataUntouched
CHECK_DEADLOCK FALSE
