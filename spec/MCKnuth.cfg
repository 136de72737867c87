SPECIFICATION Spec
CONSTANTS
 WB = 2
 Sizes <- MCSizes
INVARIANTS LoopInvariant Correct EstimateBounds Settled
CHECK_DEADLOCK FALSE
