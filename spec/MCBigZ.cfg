SPECIFICATION Spec
CONSTANT MaxLen = 2
INVARIANTS Pairwise Bitwise2 Single Texts
CHECK_DEADLOCK FALSE
