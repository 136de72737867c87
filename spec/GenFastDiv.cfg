SPECIFICATION Spec
CONSTANTS
 WB = 64
 Keep = 1
INVARIANTS Correct NoOverflow RemainderBounds Export
CHECK_DEADLOCK FALSE
