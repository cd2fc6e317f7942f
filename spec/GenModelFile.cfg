SPECIFICATION Spec
CONSTANTS
  K = 2
  R = 2
  Sizes = {1,3}
INVARIANTS Gen
CHECK_DEADLOCK FALSE
