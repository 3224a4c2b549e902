\* The log grows byte by byte or in any larger steps, also during calls.
CONSTANTS
  MaxSamples = 0
  MaxLen = 1
  Samples = 2
  Streams = {1}
  MaxIters = 1
  Limits = {1, 5}
  Logs <- Starts
  Entire = FALSE
SPECIFICATION FSpec
INVARIANTS OnlyIntact InOrder Position
PROPERTIES Complete_When AsSummarized StaysPut CaughtUp
CHECK_DEADLOCK FALSE
