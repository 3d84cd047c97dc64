SPECIFICATION Spec
CONSTANTS MaxLen = 3
          NoY = 9
          PKeys = {0, 1, 2}
          MKeys = {0, 1, 2}
          Ys <- YT
INVARIANTS SignalIsLocal InOrder MetaSeesOwnRow MetaLabelsAreHits Emit
CHECK_DEADLOCK FALSE
