SPECIFICATION Spec
CONSTANTS
 WB = 8
 MaxLen = 24
 Grow <- MCGrow
 Kinds = {"max", "high"}
INVARIANTS Compact
VIEW View2
CHECK_DEADLOCK FALSE
