SPECIFICATION Spec
CONSTANTS
  Class = {1, 2}
  MaxRounds = 3
  LossVal = {0, 1, 2}
  Steps = {0, 1}
INVARIANTS ScoreInv StopInv LastInv AlignInv
PROPERTY Terminates
