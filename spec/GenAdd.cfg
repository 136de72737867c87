SPECIFICATION Spec
CONSTANTS
 Base = 4
 Digit = {0, 1, 3}
 MaxLen = 4
 Padded = FALSE
 Ops = {"add", "sub", "swap", "signed"}
INVARIANTS Correct Fits Export
CHECK_DEADLOCK FALSE
