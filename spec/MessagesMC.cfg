SPECIFICATION Spec
CONSTANTS Clients = {"a", "b"}
  Sender = "a"
  Listeners = {1, 2, 3}
  Owner <- Own
  N = 2
  Confirm = TRUE
INVARIANTS InOrderOnce Delivered NoGaps Honest
PROPERTIES NotRemoved Ends
CHECK_DEADLOCK FALSE
