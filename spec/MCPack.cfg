SPECIFICATION Spec
CONSTANTS
 D = 3
 Unit = 4
 MaxLen = 9
INVARIANTS Correct Least
CHECK_DEADLOCK FALSE
