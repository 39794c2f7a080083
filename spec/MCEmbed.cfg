SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Frame LooksOnly Agree OneView Typed
