CONSTANT Sec = 1000000000
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
