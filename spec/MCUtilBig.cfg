SPECIFICATION Spec
CONSTANTS MaxOps = 6
MaxLen = 4
INVARIANTS Window Tracks
CHECK_DEADLOCK FALSE
