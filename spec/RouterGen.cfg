SPECIFICATION GSpec
CONSTANT Client <- GClient
CONSTRAINT Dump
CHECK_DEADLOCK FALSE
