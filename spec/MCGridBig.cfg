SPECIFICATION Spec
CONSTANTS
  N = 6
  C = 3
  Cap = 1
  Accs = {0,1,2}
INVARIANTS Clean Bounded ErrorOut Complete
PROPERTIES Returns NoLeak
CHECK_DEADLOCK FALSE
