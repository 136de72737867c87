SPECIFICATION Spec
CONSTANTS
 MaxBits = 3
 Family = "arithmetic"
INVARIANTS TypeOK C23 C24 C25 C01 C02 C03
CHECK_DEADLOCK FALSE
