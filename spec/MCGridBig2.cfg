SPECIFICATION Spec
CONSTANTS
  N = 5
  C = 3
  Cap = 1
  Accs = {0,1}
INVARIANTS Clean Bounded ErrorOut Complete
PROPERTIES Returns NoLeak
CHECK_DEADLOCK FALSE
