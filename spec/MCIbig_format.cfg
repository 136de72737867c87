SPECIFICATION Spec
CONSTANTS
 MaxBits = 4
 Family = "format"
INVARIANTS TypeOK C23 C24 C25 C11
CHECK_DEADLOCK FALSE
