SPECIFICATION GSpec
CONSTRAINT Dump
CHECK_DEADLOCK FALSE
CONSTANT Focus = "requests"
