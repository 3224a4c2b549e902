\* As MCReader, logs of up to one sample.
CONSTANTS
  MaxSamples = 1
  MaxLen = 2
  Streams = {1}
  MaxIters = 1
  Limits = {0, 1, 2}
  Logs <- MCLogs
SPECIFICATION Spec
INVARIANTS TypeOK OnlyIntact InOrder Position Limited QuietEndJustified ErrorJustified
PROPERTIES CallsMatchOutcomes Isolated Returns
CHECK_DEADLOCK FALSE
