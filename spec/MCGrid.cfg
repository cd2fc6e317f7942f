SPECIFICATION Spec
CONSTANTS
  N = 3
  C = 2
  Cap = 1
  Accs = {0,1}
INVARIANTS Clean Bounded ErrorOut Complete
PROPERTIES Returns NoLeak
CHECK_DEADLOCK FALSE
