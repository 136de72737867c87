SPECIFICATION Spec
CONSTANTS
 WB = 64
INVARIANTS Export
VIEW View
CHECK_DEADLOCK FALSE
