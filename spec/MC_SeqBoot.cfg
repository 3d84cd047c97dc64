SPECIFICATION Spec
CONSTANTS NEv = 3
          NBar = 3
          Wants = {4}
          Batches0 = {1, 2, 3}
INVARIANTS Incremental OddsSane Batches Emit
PROPERTY Lowering
CHECK_DEADLOCK FALSE
