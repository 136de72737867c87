SPECIFICATION Spec
CONSTANTS
 MaxBits = 4
 Family = "sign"
INVARIANTS TypeOK C23 C24 C25 C09
CHECK_DEADLOCK FALSE
