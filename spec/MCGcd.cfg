SPECIFICATION Spec
CONSTANTS Top = 48
INVARIANTS Bounded OddB SameGcd Exact Correct
CHECK_DEADLOCK FALSE
