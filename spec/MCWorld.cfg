CONSTANTS
  Size = 3
  Most = 4
SPECIFICATION Spec
INVARIANTS Frame Sees
PROPERTIES Quiet Reported
CHECK_DEADLOCK FALSE
