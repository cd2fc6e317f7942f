SPECIFICATION Spec
CONSTANTS
MaxLen = 7
INVARIANTS LastNL Rect Rewrite
CHECK_DEADLOCK FALSE
