\* As MCLimit, with two iterators.
CONSTANTS
  MaxSamples = 0
  MaxLen = 1
  Streams = {1}
  MaxIters = 2
  Limits = {0, 2, 4}
  Logs <- ThreeLogs
SPECIFICATION Spec
INVARIANTS TypeOK OnlyIntact InOrder Position Limited QuietEndJustified ErrorJustified
PROPERTIES CallsMatchOutcomes Isolated Returns
CHECK_DEADLOCK FALSE
