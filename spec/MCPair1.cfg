\* As MCPair, one log each with and without cgroups.
CONSTANTS
  MaxSamples = 1
  MaxLen = 1
  Streams = {1, 2}
  MaxIters = 1
  Limits = {3}
  Logs <- OneLogs
SPECIFICATION Spec
INVARIANTS TypeOK OnlyIntact InOrder Position Limited QuietEndJustified ErrorJustified
PROPERTIES CallsMatchOutcomes Isolated Returns
CHECK_DEADLOCK FALSE
