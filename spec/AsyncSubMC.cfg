SPECIFICATION Spec
CONSTANTS N = 3
 Restarts = 2
INVARIANTS AtMostOnce NothingAfterCancel Agreed NothingLeft NoLeak
PROPERTIES Silence CancelReturns Answered
CHECK_DEADLOCK FALSE
