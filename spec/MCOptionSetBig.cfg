SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
Fields = {"f", "g"}
Vals = {0, 1}
MaxOps = 6
INVARIANTS Refines Apart EqualIsEquality
CHECK_DEADLOCK FALSE
