SPECIFICATION Spec
CONSTANT Max = 255
CHECK_DEADLOCK FALSE
