CONSTANTS
  Names = {0, 1, 8, 256}
  Procs = {0, 1, 3}
  MaxEntries = 3
  Struct = "CStat_2_11"
SPECIFICATION Spec
INVARIANTS Found Matched CutShort Prefixed Overlapping PidsFit
CHECK_DEADLOCK FALSE
