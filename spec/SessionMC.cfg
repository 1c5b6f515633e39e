SPECIFICATION Spec
CONSTANTS Clients = {"a", "b"}
  Ids = {0, 1, 2}
  Calls = 4
  Losses = 1
INVARIANTS OneSession Announced
PROPERTIES Ended Refines
CHECK_DEADLOCK FALSE
