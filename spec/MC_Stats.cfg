SPECIFICATION SpecStats
CHECK_DEADLOCK FALSE
INVARIANT Sane
