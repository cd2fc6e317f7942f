SPECIFICATION Spec
CONSTANTS
  Starts = {1, 2}
  MaxEval = 7
  Accs = {0, 1, 2}
  Points = {1, 2, 3}
  Inside = {1, 2}
INVARIANTS Returned
CHECK_DEADLOCK FALSE
