SPECIFICATION Spec
CONSTANTS WB = 2
INVARIANTS Normalized Kept Balanced Correct
CHECK_DEADLOCK FALSE
