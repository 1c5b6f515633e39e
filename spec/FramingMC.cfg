SPECIFICATION FSpec
CONSTANT Client <- FClient
CONSTANT Pre = 1

INVARIANTS InOrder Settling NotBehind
PROPERTY Sub_
CHECK_DEADLOCK FALSE
CONSTRAINT Few
