CONSTANTS
  MaxSamples = 0
  MaxLen = 1
  Samples = 4
  Streams = {1}
  MaxIters = 1
  Limits = {1, 2, 5}
  Logs <- Starts
  Entire = TRUE
  Depth = 16
  Most = 7
SPECIFICATION GenSpec
INVARIANTS OnlyIntact InOrder Position Emit
CHECK_DEADLOCK FALSE
