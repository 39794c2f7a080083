CONSTANT Sec = 3
SPECIFICATION Spec
INVARIANTS Stopped Exact RunningIsBetween
PROPERTIES Fixed OnlyReset
CHECK_DEADLOCK FALSE
