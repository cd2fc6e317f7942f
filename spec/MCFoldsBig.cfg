SPECIFICATION Spec
CONSTANTS
  MaxTot = 9
INVARIANTS Disjoint Cover SizeOK TrainOK NonEmpty NotStuck NFRight
CHECK_DEADLOCK FALSE
