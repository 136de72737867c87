SPECIFICATION Spec
CONSTANTS
 WB = 64
 Sizes <- GenSizes
 Tops = {"top", "top+1", "max"}
 Kinds = {"zero", "one", "max", "top", "high"}
 Keep = 2
INVARIANTS Correct Conserved Bounded Export
CHECK_DEADLOCK FALSE
