SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Sound Accepted Forces
PROPERTY Grows
