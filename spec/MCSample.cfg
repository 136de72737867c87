SPECIFICATION Spec
CONSTANTS
 Base = 4
 MaxLen = 3
INVARIANTS Below OneTape OnlyTooLarge Reaches
CHECK_DEADLOCK FALSE
