SPECIFICATION Spec
CONSTANTS NProcs = 2
MaxJobs = 2
NFeat = 2
INVARIANTS Distinct NoneLost Never
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
