SPECIFICATION Spec
CONSTANT Ids = {1, 2, 3}
INVARIANTS Own Whole Owed
PROPERTY Ends
CHECK_DEADLOCK FALSE
