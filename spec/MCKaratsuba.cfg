SPECIFICATION Spec
CONSTANTS
 WB = 4
 Lens = {3, 4, 5, 7}
 Kinds = {"zero", "one", "max", "top", "high", "third"}
 Starts = {"zero", "max", "holes", "one"}
 Signs <- Both
INVARIANTS Correct Bounded
CHECK_DEADLOCK FALSE
