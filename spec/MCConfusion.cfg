SPECIFICATION Spec
CONSTANTS MaxK = 3
MaxN = 4
INVARIANTS Diagonal Complete TopSound
CHECK_DEADLOCK FALSE
