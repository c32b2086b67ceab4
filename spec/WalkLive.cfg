SPECIFICATION Spec
PROPERTY Terminates
CHECK_DEADLOCK FALSE
