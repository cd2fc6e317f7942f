SPECIFICATION Spec
CONSTANTS
  Opts = {1, 2, 3}
  Accs = {0, 3, 10, 15}
  MaxEval = 5
INVARIANTS Returned Top
CHECK_DEADLOCK FALSE
