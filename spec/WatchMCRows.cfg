SPECIFICATION MSpec
CONSTANTS
 Poll = 2
 Eps = 0
 Slack = 1
 Lag = 0
 Grace = 0
 MNames = {"T.*.x", "T.1.x"}
 MIvs = {0, 2}
 MDurs = {0}
 MFilts <- MF0
 MVals = {0, 1}
 MHands = {"Kh"}
 MaxT = 6
 MaxOps = 4
 Jitter = 1
 MFail = FALSE
INVARIANTS Accepted NoneOverdue Caught OnlyWatched Bounded
CHECK_DEADLOCK FALSE
VIEW View
