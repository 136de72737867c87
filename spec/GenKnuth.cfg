SPECIFICATION Spec
CONSTANTS
 WB = 64
 Sizes <- GenSizes
 Tops = {"top", "top+1", "max", "max-1", "max-1"}
 Kinds = {"zero", "one", "max", "max-1", "top", "top-1"}
 Keep = 2
INVARIANTS LoopInvariant Correct EstimateBounds Settled Export
CHECK_DEADLOCK FALSE
