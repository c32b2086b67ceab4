SPECIFICATION Spec
INVARIANTS Room Promised StaysEnded Independent Compared Emitted
CHECK_DEADLOCK FALSE
