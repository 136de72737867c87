SPECIFICATION Spec
CONSTANTS
 MaxBits = 3
 Family = "sample"
INVARIANTS TypeOK C23 C24 C25 C21 C21All
CHECK_DEADLOCK FALSE
