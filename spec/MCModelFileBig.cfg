SPECIFICATION Spec
CONSTANTS
  K = 2
  R = 2
  Sizes = {1,3,5}
INVARIANTS Truncated Whole Damaged Lost
CHECK_DEADLOCK FALSE
