SPECIFICATION Spec
CONSTANTS
 MaxBits = 10
 Family = "primitive"
INVARIANTS TypeOK C23 C24 C25 C27
CHECK_DEADLOCK FALSE
