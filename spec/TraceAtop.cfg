CONSTANTS
  Streams = {1, 2, 3, 4}
  MaxIters = 100000
  Limits = {}
  Logs = {}
SPECIFICATION TraceSpec
INVARIANTS OnlyIntact InOrder Position
POSTCONDITION Complete_
CHECK_DEADLOCK FALSE
