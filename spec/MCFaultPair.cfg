\* Two readers, one failure: the other reader is not concerned.
CONSTANTS
  MaxSamples = 0
  MaxLen = 1
  Streams = {1, 2}
  MaxIters = 1
  Limits = {5}
  Logs <- PairLogs
  Trouble = 1
SPECIFICATION XSpec
INVARIANTS OnlyIntact InOrder Position
PROPERTIES AsFailing NeverHidden Undisturbed Isolated
CHECK_DEADLOCK FALSE
