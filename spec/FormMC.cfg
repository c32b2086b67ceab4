SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE
