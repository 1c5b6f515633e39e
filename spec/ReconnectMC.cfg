SPECIFICATION Spec
CONSTANTS Senders = {"a", "b"}
  Losses = 2
  Sends = 2
  Ids = {1, 2}
  Counted = TRUE
INVARIANTS NotReplaced Registered
PROPERTIES Reads GetsOn
CHECK_DEADLOCK FALSE
