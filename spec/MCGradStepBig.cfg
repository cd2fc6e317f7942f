SPECIFICATION Spec
CONSTANTS
  Accs = {0, 1}
  P = 3
  Cap = 1
  Central = TRUE
INVARIANTS Clean Around Uphill
PROPERTIES Returns NoLeak
CHECK_DEADLOCK FALSE
