CONSTANTS
  Rec = 3
  Blocks = 2
  MaxSize = 14
  MaxLen = 5
SPECIFICATION Spec
INVARIANTS Known Few
PROPERTIES Onward EndsAll
CHECK_DEADLOCK FALSE
