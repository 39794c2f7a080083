SPECIFICATION Spec
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
