SPECIFICATION Spec
INVARIANTS Tables
CHECK_DEADLOCK FALSE
