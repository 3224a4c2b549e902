CONSTANTS
  MaxSamples = 2
  MaxLen = 1
  Streams = {1}
  MaxIters = 1
  Limits = {0, 1, 3}
  Logs <- MCLogs
  Depth = 20
  Straight = TRUE
SPECIFICATION GenSpec
INVARIANTS OnlyIntact InOrder Position Emit
CHECK_DEADLOCK FALSE
