SPECIFICATION Spec
CONSTANTS
  Class = {1, 2}
  MaxRounds = 3
  LossVal = {0, 1, 2}
  Steps = {1}
INVARIANTS Scen
