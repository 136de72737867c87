SPECIFICATION Spec
CONSTANTS
 MaxBits = 4
 Family = "bits"
INVARIANTS TypeOK C23 C24 C25 C07
CHECK_DEADLOCK FALSE
