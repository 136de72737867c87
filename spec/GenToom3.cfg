SPECIFICATION Spec
CONSTANTS
 WB = 64
 Lens = {193, 194}
 Kinds = {"zero", "one", "max", "high"}
 Keep = 2
INVARIANTS Correct Bounded Export
CHECK_DEADLOCK FALSE
