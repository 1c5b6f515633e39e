SPECIFICATION Spec
CONSTANTS N = 3
  Data = {1, 2, 3}
INVARIANTS Refines Places Once SweepOK
CHECK_DEADLOCK FALSE
