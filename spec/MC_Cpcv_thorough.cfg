SPECIFICATION Spec
CONSTANTS MaxN = 6
          Gaps = {0, 1}
          Hor = {0, 1, 4}
          Embs = {0, 1}
          GK <- GKt
INVARIANTS NoLeak OnlyNeeded FoldsAreFair Emit
CHECK_DEADLOCK FALSE
