SPECIFICATION Spec
CONSTANTS
 MaxBits = 10
 Family = "convert"
INVARIANTS TypeOK C23 C24 C25 C14
CHECK_DEADLOCK FALSE
