SPECIFICATION Spec
VIEW Position
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
