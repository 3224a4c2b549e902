CONSTANTS
  Labels = {"cpu", "XYZ"}
  MaxFiles = 2
  MaxLabels = 1
SPECIFICATION Spec
INVARIANTS OneBegins Alike Short Success
PROPERTIES EndsBoth
CHECK_DEADLOCK FALSE
