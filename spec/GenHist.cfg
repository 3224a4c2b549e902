CONSTANTS
  MaxSamples = 2
  MaxLen = 1
  Streams = {1}
  MaxIters = 2
  Limits = {0, 1, 2, 5}
  Logs <- ThreeLogs
  Depth = 9
  Straight = FALSE
SPECIFICATION GenSpec
INVARIANTS OnlyIntact InOrder Position Emit
CHECK_DEADLOCK FALSE
