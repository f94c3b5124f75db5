SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Defaults Refuses Sound
