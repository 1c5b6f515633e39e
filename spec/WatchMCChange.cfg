SPECIFICATION MSpec
CONSTANTS
 Poll = 2
 Eps = 0
 Slack = 1
 Lag = 0
 Grace = 0
 MNames = {"A.q"}
 MIvs = {0}
 MDurs = {0}
 MFilts <- MF1
 MVals = {0, 1, 2}
 MHands = {"Kh", "Lh"}
 MaxT = 7
 MaxOps = 4
 Jitter = 1
 MFail = TRUE
INVARIANTS Accepted NoneOverdue Caught OnlyWatched Bounded
CHECK_DEADLOCK FALSE
VIEW View
