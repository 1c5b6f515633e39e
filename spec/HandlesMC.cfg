SPECIFICATION Spec
CONSTANTS Names = {"m", "n"}
  Callers = {"x", "y"}
  Ops = 3
  Arrivals = 3
  Waits = TRUE
  Inside = TRUE
INVARIANTS NoUse Withdrawn Connected Kept
PROPERTIES Ends
CHECK_DEADLOCK FALSE
