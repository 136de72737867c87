SPECIFICATION Spec
CONSTANTS
 MaxBits = 3
 Family = "ring"
INVARIANTS TypeOK C23 C24 C25 C17 C18 C19
CHECK_DEADLOCK FALSE
