SPECIFICATION Spec
CONSTANTS
 MaxBits = 3
 Family = "gcd"
INVARIANTS TypeOK C23 C24 C25 C16
CHECK_DEADLOCK FALSE
