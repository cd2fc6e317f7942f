SPECIFICATION Spec
CONSTANTS NProcs = 3
MaxJobs = 2
NFeat = 2
INVARIANTS Distinct NoneLost Never
CHECK_DEADLOCK FALSE
