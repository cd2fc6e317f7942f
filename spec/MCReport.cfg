SPECIFICATION Spec
CONSTANTS
  NF = 2
  V = {1, 2}
  MaxNodes = 5
INVARIANTS Faithful Distinct
CHECK_DEADLOCK FALSE
