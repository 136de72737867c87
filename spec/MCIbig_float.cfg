SPECIFICATION Spec
CONSTANTS
 MaxBits = 6
 Family = "float"
INVARIANTS TypeOK C23 C24 C25 C15
CHECK_DEADLOCK FALSE
