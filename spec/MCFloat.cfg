SPECIFICATION Spec
CONSTANTS
 W = 3
 Prec = 4
 Bias = 15
 Limit = 70000
INVARIANTS TopKept StickyTold Nearest AsSpecified
CHECK_DEADLOCK FALSE
