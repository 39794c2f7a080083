SPECIFICATION Spec
INVARIANTS WholeOnly RoundTrip
PROPERTIES Sound NeverAsksTooMuch
CHECK_DEADLOCK FALSE
