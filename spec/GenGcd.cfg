SPECIFICATION Spec
CONSTANTS WB = 64
INVARIANTS Bounded OddB SameGcd Exact Correct Export
CHECK_DEADLOCK FALSE
