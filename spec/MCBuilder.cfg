SPECIFICATION Spec
CONSTANT Max = 5
INVARIANTS Formed RoundTrip Ranges
PROPERTIES Unchanged Written
CHECK_DEADLOCK FALSE
