SPECIFICATION Spec
CONSTANTS
 W = 3
 Top = 4095
 Places = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}
INVARIANTS Correct Least
CHECK_DEADLOCK FALSE
