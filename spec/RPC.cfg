SPECIFICATION RFair
CONSTANT Conn <- RC
CONSTANT Thread <- RT
CONSTANT Stray = FALSE
CONSTANT MaxSeq = 2
INVARIANTS Distinct OneOutcome OwnAnswer Accounted
PROPERTY Ends
CHECK_DEADLOCK FALSE
