SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Splits Spells Known Again
