SPECIFICATION Spec
CONSTANTS MaxOps = 5
MaxLen = 3
INVARIANTS Window Tracks
CHECK_DEADLOCK FALSE
