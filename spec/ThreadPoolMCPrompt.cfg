SPECIFICATION SpecLong
CONSTANTS Max = 2
  T = 4
  N = 4
  Wait = "forever"
  Fail = FALSE
INVARIANTS Limit InOrder
PROPERTIES Prompt
CHECK_DEADLOCK FALSE
