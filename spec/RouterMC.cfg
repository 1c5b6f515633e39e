SPECIFICATION MCSpec
CONSTANT Client <- MCClient
CONSTANT MaxRoutes = 2
CONSTANT MaxTopics = 3
CONSTRAINT Bound
VIEW View
INVARIANTS RoutesOfConnected NoTableSiblings ElementsExclusive Reachable OutOnlyToConnected PartialAgrees ProbesAnswered EndToEnd
PROPERTY OthersUntouched
CHECK_DEADLOCK FALSE
