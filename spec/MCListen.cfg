SPECIFICATION Spec
INVARIANTS PortsAreReadBack FoursAreReadBack SixesAreReadBack
CHECK_DEADLOCK FALSE
