SPECIFICATION Spec
CONSTANTS MaxOps = 4
INVARIANTS Opposite LossZero LossGrad HessPos Soft
CHECK_DEADLOCK FALSE
