\* Two failures or interruptions of one reader.
CONSTANTS
  MaxSamples = 0
  MaxLen = 1
  Streams = {1}
  MaxIters = 1
  Limits = {1, 5}
  Logs <- FaultLogs
  Trouble = 2
SPECIFICATION XSpec
INVARIANTS OnlyIntact InOrder Position
PROPERTIES AsFailing NeverHidden Undisturbed AllThere
CHECK_DEADLOCK FALSE
