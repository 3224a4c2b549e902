CONSTANTS
  Files <- SomeFiles
  Labels = {"cpu", "MEM", "PRN", "XYZ"}
  MaxFiles = 3
  MaxLabels = 3
SPECIFICATION Spec
INVARIANTS AsExpected Whole Refused Ordered_ Pure Failed
PROPERTIES Append_ Ends
CHECK_DEADLOCK FALSE
