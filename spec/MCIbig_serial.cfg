SPECIFICATION Spec
CONSTANTS
 MaxBits = 10
 Family = "serial"
INVARIANTS TypeOK C23 C24 C25 C20
CHECK_DEADLOCK FALSE
