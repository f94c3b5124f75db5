SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS WriterSound ReaderSound RoundTrip FoldBound Distinct
