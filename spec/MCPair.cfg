\* Two streams with two iterators each and direct calls, in every interleaving.
CONSTANTS
  MaxSamples = 2
  MaxLen = 1
  Streams = {1, 2}
  MaxIters = 1
  Limits = {1, 3}
  Logs <- FewLogs
SPECIFICATION Spec
INVARIANTS TypeOK OnlyIntact InOrder Position Limited QuietEndJustified ErrorJustified
PROPERTIES CallsMatchOutcomes Isolated Returns
CHECK_DEADLOCK FALSE
