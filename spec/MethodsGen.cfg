SPECIFICATION GSpec
CONSTRAINT Dump
CHECK_DEADLOCK FALSE
CONSTRAINT Few
