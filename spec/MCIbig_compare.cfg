SPECIFICATION Spec
CONSTANTS
 MaxBits = 4
 Family = "compare"
INVARIANTS TypeOK C23 C24 C25 C08
CHECK_DEADLOCK FALSE
