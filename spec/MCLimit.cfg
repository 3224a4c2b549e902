\* Limits: complete logs of three samples, two iterators and direct calls.
CONSTANTS
  MaxSamples = 0
  MaxLen = 1
  Streams = {1}
  MaxIters = 3
  Limits = {0, 1, 2, 4}
  Logs <- ThreeLogs
SPECIFICATION Spec
INVARIANTS TypeOK OnlyIntact InOrder Position Limited QuietEndJustified ErrorJustified
PROPERTIES CallsMatchOutcomes Isolated Returns
CHECK_DEADLOCK FALSE
