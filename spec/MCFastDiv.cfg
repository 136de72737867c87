SPECIFICATION Spec
CONSTANTS
 WB = 5
INVARIANTS Correct NoOverflow RemainderBounds
CHECK_DEADLOCK FALSE
