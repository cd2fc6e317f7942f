SPECIFICATION Spec
CONSTANTS
MaxLen = 5
INVARIANTS LastNL Rect Rewrite
CHECK_DEADLOCK FALSE
