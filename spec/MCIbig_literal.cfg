SPECIFICATION Spec
CONSTANTS
 MaxBits = 20
 Family = "literal"
INVARIANTS TypeOK C23 C24 C25 C12
CHECK_DEADLOCK FALSE
