SPECIFICATION Spec
INVARIANTS NothingInvented EachOnce Complete_ InListOrder DanglingLink StaysEnded Bounded Independent Stands Emitted
PROPERTY Refines
CHECK_DEADLOCK FALSE
