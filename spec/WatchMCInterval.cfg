SPECIFICATION MSpec
CONSTANTS
 Poll = 2
 Eps = 0
 Slack = 1
 Lag = 0
 Grace = 0
 MNames = {"A.q"}
 MIvs = {1, 2}
 MDurs = {0, 1, 3}
 MFilts <- MF1
 MVals = {1}
 MHands = {"Kh"}
 MaxT = 7
 MaxOps = 4
 Jitter = 1
 MFail = TRUE
INVARIANTS Accepted NoneOverdue Caught OnlyWatched Bounded
CHECK_DEADLOCK FALSE
VIEW View
