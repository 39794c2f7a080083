SPECIFICATION Spec
INVARIANTS Kept Written Through
CHECK_DEADLOCK FALSE
