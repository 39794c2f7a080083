CONSTANTS
N = 4
Plan <- P
SPECIFICATION Spec
INVARIANTS Sound Exact
PROPERTIES NeverBack
CHECK_DEADLOCK FALSE
