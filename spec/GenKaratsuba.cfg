SPECIFICATION Spec
CONSTANTS
 WB = 64
 Lens = {25, 26, 27, 48}
 Kinds = {"zero", "max", "high"}
 Keep = 2
INVARIANTS Correct Bounded Export
CHECK_DEADLOCK FALSE
