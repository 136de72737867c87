SPECIFICATION Spec
CONSTANTS
 MaxBits = 10
 Family = "bytes"
INVARIANTS TypeOK C23 C24 C25 C13
CHECK_DEADLOCK FALSE
