SPECIFICATION Spec
INVARIANTS Room
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
