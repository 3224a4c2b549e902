CONSTANTS
  MaxSamples = 0
  MaxLen = 1
  Samples = 3
  Streams = {1}
  MaxIters = 1
  Limits = {1, 2, 5}
  Logs <- Starts
  Entire = FALSE
  Depth = 12
  Most = 5
SPECIFICATION GenSpec
INVARIANTS OnlyIntact InOrder Position Emit
CHECK_DEADLOCK FALSE
