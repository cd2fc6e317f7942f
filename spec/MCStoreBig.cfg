SPECIFICATION MCSpec
CONSTANTS
  MaxOps = 8
  Vals = {1, 2}
INVARIANTS Functional NeverRejects
CHECK_DEADLOCK FALSE
