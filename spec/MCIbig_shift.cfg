SPECIFICATION Spec
CONSTANTS
 MaxBits = 4
 Family = "shift"
INVARIANTS TypeOK C23 C24 C25 C04 C05
CHECK_DEADLOCK FALSE
