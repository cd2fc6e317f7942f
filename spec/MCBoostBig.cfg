SPECIFICATION Spec
CONSTANTS
  Class = {1, 2}
  MaxRounds = 4
  LossVal = {0, 1, 2, 3}
  Steps = {1}
INVARIANTS ScoreInv StopInv LastInv AlignInv
PROPERTY Terminates
