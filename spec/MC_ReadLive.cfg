SPECIFICATION FairSpec
CHECK_DEADLOCK FALSE
INVARIANTS Sound Accepted Forces
PROPERTY Ends
