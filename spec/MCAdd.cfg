SPECIFICATION Spec
CONSTANTS
 Base = 4
 Digit = {0, 1, 2, 3}
 MaxLen = 3
 Padded = TRUE
 Ops = {"add", "sub", "swap", "signed"}
INVARIANTS Correct Fits
VIEW View
CHECK_DEADLOCK FALSE
