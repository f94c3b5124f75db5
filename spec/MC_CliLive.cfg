SPECIFICATION FairSpec
INVARIANTS Complete Untouched Reported OnlyGood AllGood
PROPERTY Ends
CHECK_DEADLOCK FALSE
