SPECIFICATION GSpec
CONSTANT Comp <- GComp
CONSTRAINT Dump
CHECK_DEADLOCK FALSE
