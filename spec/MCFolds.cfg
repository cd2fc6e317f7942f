SPECIFICATION Spec
CONSTANTS
  MaxTot = 6
INVARIANTS Disjoint Cover SizeOK TrainOK NonEmpty NotStuck NFRight
CHECK_DEADLOCK FALSE
