SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AlwaysCounts IntExact FloatLaws
