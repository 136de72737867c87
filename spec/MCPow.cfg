SPECIFICATION Spec
CONSTANTS WB = 4
INVARIANTS InRange Prefix InTable Correct Chosen
CHECK_DEADLOCK FALSE
