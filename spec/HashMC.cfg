SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3, 4, 5}
  Vals = {1, 2}
  Init0 = 2
  Load = 75
  MaxHash = 4
INVARIANTS Refines Copies
CHECK_DEADLOCK FALSE
