SPECIFICATION Spec
CONSTANTS Max = 2
  T = 4
  N = 4
  Wait = "forever"
  Fail = TRUE
INVARIANTS Limit InOrder NotUsedWhenFreed DroppedNeverRun Count Waited
PROPERTIES AllRun FreedOnce NoneForgotten
CHECK_DEADLOCK FALSE
