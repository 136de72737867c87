SPECIFICATION Spec
CONSTANTS
 MaxBits = 3
 Family = "logic"
INVARIANTS TypeOK C23 C24 C25 C06
CHECK_DEADLOCK FALSE
