SPECIFICATION Spec
CONSTANTS XDen = 40
          Steps = {1000, 10000, 12500, 50000, 100000, 150000, 250000, 300000, 333000, 400000, 500000, 700000, 999000}
INVARIANTS FewAnswers Symmetric Nearest Emit
CHECK_DEADLOCK FALSE
