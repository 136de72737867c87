SPECIFICATION Spec
CONSTANTS
 MaxBits = 20
 Family = "parse"
INVARIANTS TypeOK C23 C24 C25 C10
CHECK_DEADLOCK FALSE
