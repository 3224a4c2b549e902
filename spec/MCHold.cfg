CONSTANT N = 6
SPECIFICATION Spec
INVARIANTS TypeOK Bounded Nothing OnDemand
PROPERTIES Gone
CHECK_DEADLOCK FALSE
