SPECIFICATION Spec
CONSTANTS Top = 24
INVARIANTS Bounded OddB SameGcd Exact Correct
PROPERTIES Ends
CHECK_DEADLOCK FALSE
