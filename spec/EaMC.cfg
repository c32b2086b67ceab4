SPECIFICATION Spec
INVARIANTS Agree AsMany Ahead Inside Apart Agrees Emitted
CHECK_DEADLOCK FALSE
