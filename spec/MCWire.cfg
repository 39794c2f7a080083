SPECIFICATION Spec
INVARIANTS MachineIsParse Stable FreshAfter Clean
PROPERTIES MoreIsMore
CHECK_DEADLOCK FALSE
