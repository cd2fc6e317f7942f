SPECIFICATION Spec
CONSTANTS
  K = 2
  R = 3
  Sizes = {1,3}
INVARIANTS Gen
CHECK_DEADLOCK FALSE
