SPECIFICATION Spec
CONSTANTS
 MaxBits = 4
 Family = "clone"
INVARIANTS TypeOK C23 C24 C25 C26
CHECK_DEADLOCK FALSE
