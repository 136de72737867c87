SPECIFICATION Spec
CONSTANTS
 Simple = 24
 Karatsuba = 192
 SimpleDiv = 32
 Longest = 900
INVARIANTS Enough Lengths Shallow
CHECK_DEADLOCK FALSE
