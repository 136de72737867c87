SPECIFICATION Spec
CONSTANTS
 WB = 4
 Lens = {16, 18}
 Kinds = {"zero", "max", "one"}
 Starts = {"zero", "max"}
 Signs <- Both
INVARIANTS Correct Bounded
CHECK_DEADLOCK FALSE
