SPECIFICATION Spec
CONSTANT Ids <- TraceIds
CHECK_DEADLOCK FALSE
