CONSTANTS
  Alphabet = {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 194, 224, 237, 240, 244, 245}
  MaxLen = 4
SPECIFICATION Spec
INVARIANTS Idempotent AsciiStays NothingNew AsciiKept NoLoneLead Local Cut Numbers
CHECK_DEADLOCK FALSE
