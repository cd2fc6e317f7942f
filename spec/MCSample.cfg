SPECIFICATION Spec
CONSTANTS
  Row = {1, 2, 3}
  NClass = 2
  MaxRounds = 3
  MinSamples = {0, 1, 2, 4}
INVARIANTS SharedInv EnoughInv AllClassesInv
PROPERTY Terminates
