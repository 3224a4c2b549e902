\* One stream, one iterator or direct calls, every small log.
CONSTANTS
  MaxSamples = 2
  MaxLen = 2
  Streams = {1}
  MaxIters = 1
  Limits = {0, 1, 2, 3}
  Logs <- MCLogs
SPECIFICATION Spec
INVARIANTS TypeOK OnlyIntact InOrder Position Limited QuietEndJustified ErrorJustified
PROPERTIES CallsMatchOutcomes Isolated Returns
CHECK_DEADLOCK FALSE
