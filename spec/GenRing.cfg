SPECIFICATION Spec
CONSTANTS WB = 64
INVARIANTS Normalized Kept Balanced Correct Export
CHECK_DEADLOCK FALSE
