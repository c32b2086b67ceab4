SPECIFICATION Spec
POSTCONDITION Conforms
CHECK_DEADLOCK FALSE
