SPECIFICATION TSpec
INVARIANT Limit
POSTCONDITION Report
CHECK_DEADLOCK FALSE
