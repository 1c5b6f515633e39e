SPECIFICATION TSpec
CONSTANT Client <- TClient
INVARIANT InOrder
POSTCONDITION Report
CHECK_DEADLOCK FALSE
