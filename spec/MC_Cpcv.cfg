SPECIFICATION Spec
CONSTANTS MaxN = 5
          Gaps = {0, 1}
          Hor = {0, 1, 3}
          Embs = {0, 1}
          GK <- GKs
INVARIANTS NoLeak OnlyNeeded FoldsAreFair Emit
CHECK_DEADLOCK FALSE
