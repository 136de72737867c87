SPECIFICATION Spec
CONSTANTS
 WB = 64
 MaxLen = 7
 Grow <- GenGrow
 Kinds = {"max", "high"}
 Keep = 1
INVARIANTS Compact
ACTION_CONSTRAINT Export
VIEW View2
CHECK_DEADLOCK FALSE
