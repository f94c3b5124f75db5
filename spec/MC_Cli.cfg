SPECIFICATION Spec
INVARIANTS Complete Untouched Reported OnlyGood AllGood
CHECK_DEADLOCK FALSE
