SPECIFICATION Spec
CONSTANTS
  MaxTot = 9
  Odd = {1, 4}
INVARIANTS MeanInv OddInv Disjoint Cover
CHECK_DEADLOCK FALSE
