CONSTANTS
  MaxSamples = 0
  MaxLen = 1
  Streams = {1}
  MaxIters = 1
  Limits = {1, 5}
  Logs <- FewLogs
  Trouble = 4
  Depth = 16
SPECIFICATION GenSpec
INVARIANTS OnlyIntact InOrder Position Emit
CHECK_DEADLOCK FALSE
