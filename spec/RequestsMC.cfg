SPECIFICATION Spec
CONSTANTS S = {"a", "b"}
  Each = 2
  Answers = 3
  Locked = TRUE
INVARIANTS OwnOrTimeout Once NoStale
PROPERTIES Ends
CHECK_DEADLOCK FALSE
