SPECIFICATION Spec
CONSTANTS Base = 3
N = 12
INVARIANTS Repr Ring Div Bits Shifts Lengths Powers Gcd Texts
CHECK_DEADLOCK FALSE
