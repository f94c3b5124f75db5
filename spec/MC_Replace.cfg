SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Once ParentsFirst Identity
