SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ReaderSound WriterSound Accepted RoundTrip
