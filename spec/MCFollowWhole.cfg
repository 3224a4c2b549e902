\* The log grows by complete samples.
CONSTANTS
  MaxSamples = 0
  MaxLen = 1
  Samples = 3
  Streams = {1}
  MaxIters = 1
  Limits = {1, 5}
  Logs <- Starts
  Entire = TRUE
SPECIFICATION FSpec
INVARIANTS NeverLost OnlyIntact InOrder Position
PROPERTIES Complete_When AsSummarized StaysPut CaughtUp
CHECK_DEADLOCK FALSE
