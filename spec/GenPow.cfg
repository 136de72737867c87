SPECIFICATION Spec
CONSTANTS WB = 64
INVARIANTS InRange Prefix InTable Correct Chosen Export
CHECK_DEADLOCK FALSE
