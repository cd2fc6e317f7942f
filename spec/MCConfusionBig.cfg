SPECIFICATION Spec
CONSTANTS MaxK = 3
MaxN = 6
INVARIANTS Diagonal Complete TopSound
CHECK_DEADLOCK FALSE
