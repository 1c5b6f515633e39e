SPECIFICATION TSpec
CONSTANT Client <- TClient
INVARIANTS RoutesOfConnected NoTableSiblings ElementsExclusive Reachable OutOnlyToConnected PartialAgrees
POSTCONDITION Report
CHECK_DEADLOCK FALSE
