CONSTANTS
  MaxSamples = 2
  MaxLen = 1
  Streams = {1, 2, 3}
  MaxIters = 2
  Limits = {1, 2, 5}
  Logs <- FewLogs
  Depth = 24
  Straight = FALSE
SPECIFICATION GenSpec
INVARIANTS OnlyIntact InOrder Position Emit
CHECK_DEADLOCK FALSE
