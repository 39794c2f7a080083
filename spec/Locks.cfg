SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NobodyWaitsForever AllGivenBack
