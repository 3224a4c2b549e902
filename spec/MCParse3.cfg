CONSTANTS
  Changes = 3
  Cores = {0, 2, 99, 100, 101, 64, 65, 70000}
SPECIFICATION Spec
INVARIANTS One Leading PerCoreRows PerTask Apart
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
