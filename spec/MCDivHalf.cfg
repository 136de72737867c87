SPECIFICATION Spec
CONSTANTS
 WB = 2
 Sizes <- MCSizes
INVARIANTS Correct Conserved Bounded
CHECK_DEADLOCK FALSE
