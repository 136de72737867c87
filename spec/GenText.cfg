SPECIFICATION Spec
\* WB = 64: the same programs for every word size
INVARIANTS Export
VIEW View
CHECK_DEADLOCK FALSE
