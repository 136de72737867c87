SPECIFICATION Spec
CONSTANTS
 W = 2
 Top = 130
 Shifts = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
INVARIANTS Correct SignRight
CHECK_DEADLOCK FALSE
