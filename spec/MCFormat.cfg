SPECIFICATION Spec
INVARIANTS Total OnlyComplete VersionRead MarkerNoPart OwnFormat Sound Measured
CHECK_DEADLOCK FALSE
